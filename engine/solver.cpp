#include "solver.h"
#include <z3.h>
#include <time.h>
SolverStats g_ss; unsigned g_solverTimeoutMs = 20000;
static Z3_context C; static Z3_solver S1; static Z3_sort D64, D32; static Z3_ast RNE, RTZ;
static std::vector<Z3_ast> mBV, mBool, mFP, mVar;
double nowSecs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, errh);
  S1 = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S1);
  D64 = Z3_mk_fpa_sort_double(C); D32 = Z3_mk_fpa_sort_single(C);
  RNE = Z3_mk_fpa_rne(C); RTZ = Z3_mk_fpa_rtz(C);
  Z3_inc_ref(C, (Z3_ast)D64); Z3_inc_ref(C, (Z3_ast)D32); Z3_inc_ref(C, RNE); Z3_inc_ref(C, RTZ);
}
static Z3_ast bvc(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64)), Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64)));
}
static Z3_ast bv(Expr* e); static Z3_ast bo(Expr* e); static Z3_ast fp(Expr* e);
static Z3_ast keep(std::vector<Z3_ast>& v, Expr* e, Z3_ast a) { if (v.size() <= e->id) v.resize(std::max((size_t)e->id + 1, v.size() * 2)); Z3_inc_ref(C, a); v[e->id] = a; return a; }
static Z3_ast dbl(double d) { return Z3_mk_fpa_numeral_double(C, d, D64); }
static Z3_ast fpToBits(Z3_ast f, unsigned w) {
  return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), bvc(w == 64 ? 0xFFF8000000000000ull : 0xFFC00000u, w), Z3_mk_fpa_to_ieee_bv(C, f));
}
static Z3_ast fp(Expr* e) {
  if (e->id < mFP.size() && mFP[e->id]) return mFP[e->id];
  Z3_sort srt = e->w == 64 ? D64 : D32; Z3_ast r;
  switch (e->op) {
    case E_FADD: r = Z3_mk_fpa_add(C, RNE, fp(e->k[0]), fp(e->k[1])); break;
    case E_FSUB: r = Z3_mk_fpa_sub(C, RNE, fp(e->k[0]), fp(e->k[1])); break;
    case E_FMUL: r = Z3_mk_fpa_mul(C, RNE, fp(e->k[0]), fp(e->k[1])); break;
    case E_FDIV: r = Z3_mk_fpa_div(C, RNE, fp(e->k[0]), fp(e->k[1])); break;
    case E_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, RNE, bv(e->k[0]), srt); break;
    case E_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, RNE, bv(e->k[0]), srt); break;
    case E_FPEXT: case E_FPTRUNC: r = Z3_mk_fpa_to_fp_float(C, RNE, fp(e->k[0]), srt); break;
    case E_FSQRT: r = Z3_mk_fpa_sqrt(C, RNE, fp(e->k[0])); break;
    case E_FROUND: r = Z3_mk_fpa_round_to_integral(C, e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? RTZ : e->aux == 3 ? Z3_mk_fpa_rna(C) : RNE, fp(e->k[0])); break;
    case E_ITE: r = Z3_mk_ite(C, bo(e->k[0]), fp(e->k[1]), fp(e->k[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, bv(e), srt);
  }
  return keep(mFP, e, r);
}
static Z3_ast bo(Expr* e) {
  if (e->id < mBool.size() && mBool[e->id]) return mBool[e->id];
  Z3_ast r, t[2];
  switch (e->op) {
    case E_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case E_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(C, bo(e->k[0]), bo(e->k[1])) : Z3_mk_eq(C, bv(e->k[0]), bv(e->k[1])); break;
    case E_ULT: r = Z3_mk_bvult(C, bv(e->k[0]), bv(e->k[1])); break;
    case E_ULE: r = Z3_mk_bvule(C, bv(e->k[0]), bv(e->k[1])); break;
    case E_SLT: r = Z3_mk_bvslt(C, bv(e->k[0]), bv(e->k[1])); break;
    case E_SLE: r = Z3_mk_bvsle(C, bv(e->k[0]), bv(e->k[1])); break;
    case E_AND: t[0] = bo(e->k[0]); t[1] = bo(e->k[1]); r = Z3_mk_and(C, 2, t); break;
    case E_OR: t[0] = bo(e->k[0]); t[1] = bo(e->k[1]); r = Z3_mk_or(C, 2, t); break;
    case E_XOR: if (e->k[1]->isC()) { r = Z3_mk_not(C, bo(e->k[0])); } else r = Z3_mk_xor(C, bo(e->k[0]), bo(e->k[1])); break;
    case E_ITE: r = Z3_mk_ite(C, bo(e->k[0]), bo(e->k[1]), bo(e->k[2])); break;
    case E_FEQ: r = Z3_mk_fpa_eq(C, fp(e->k[0]), fp(e->k[1])); break;
    case E_FLT: r = Z3_mk_fpa_lt(C, fp(e->k[0]), fp(e->k[1])); break;
    case E_FLE: r = Z3_mk_fpa_leq(C, fp(e->k[0]), fp(e->k[1])); break;
    case E_FISNAN: r = Z3_mk_fpa_is_nan(C, fp(e->k[0])); break;
    default: r = Z3_mk_eq(C, bv(e), bvc(1, 1));
  }
  return keep(mBool, e, r);
}
static Z3_ast bv(Expr* e) {
  if (e->id < mBV.size() && mBV[e->id]) return mBV[e->id];
  Z3_ast r;
  auto A = [&]() { return bv(e->k[0]); }; auto B = [&]() { return bv(e->k[1]); };
  if (e->w == 1 && e->op != E_VAR && e->op != E_EXTRACT && e->op != E_CONST) {
    r = Z3_mk_ite(C, bo(e), bvc(1, 1), bvc(0, 1));
  } else switch (e->op) {
    case E_CONST: r = bvc(e->c, e->w); break;
    case E_VAR: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, e->w));
      if (mVar.size() <= e->aux) mVar.resize(e->aux + 64); mVar[e->aux] = r; break; }
    case E_ADD: r = Z3_mk_bvadd(C, A(), B()); break; case E_SUB: r = Z3_mk_bvsub(C, A(), B()); break;
    case E_MUL: r = Z3_mk_bvmul(C, A(), B()); break; case E_UDIV: r = Z3_mk_bvudiv(C, A(), B()); break;
    case E_SDIV: r = Z3_mk_bvsdiv(C, A(), B()); break; case E_UREM: r = Z3_mk_bvurem(C, A(), B()); break;
    case E_SREM: r = Z3_mk_bvsrem(C, A(), B()); break; case E_AND: r = Z3_mk_bvand(C, A(), B()); break;
    case E_OR: r = Z3_mk_bvor(C, A(), B()); break; case E_XOR: r = Z3_mk_bvxor(C, A(), B()); break;
    case E_SHL: r = Z3_mk_bvshl(C, A(), B()); break; case E_LSHR: r = Z3_mk_bvlshr(C, A(), B()); break;
    case E_ASHR: r = Z3_mk_bvashr(C, A(), B()); break;
    case E_ITE: r = Z3_mk_ite(C, bo(e->k[0]), bv(e->k[1]), bv(e->k[2])); break;
    case E_CONCAT: r = Z3_mk_concat(C, A(), B()); break;
    case E_EXTRACT: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, A()); break;
    case E_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, A()); break;
    case E_SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, A()); break;
    case E_FPTOSI: { Z3_ast f = fp(e->k[0]); if (e->k[0]->w == 32) f = Z3_mk_fpa_to_fp_float(C, RNE, f, D64);
      Z3_ast lo = e->w == 64 ? Z3_mk_fpa_geq(C, f, dbl(-9223372036854775808.0)) : Z3_mk_fpa_gt(C, f, dbl(-2147483649.0));
      Z3_ast hi = e->w == 64 ? Z3_mk_fpa_lt(C, f, dbl(9223372036854775808.0)) : Z3_mk_fpa_lt(C, f, dbl(2147483648.0));
      Z3_ast t[2] = {lo, hi};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, t), Z3_mk_fpa_to_sbv(C, RTZ, f, e->w), bvc((u128)1 << (e->w - 1), e->w)); break; }
    default: r = fpToBits(fp(e), e->w);
  }
  return keep(mBV, e, r);
}
static void collectVars(const std::vector<Expr*>& cs, std::vector<u32>& out) {
  VarSet* s = nullptr; for (auto e : cs) s = s ? vsUnion(s, e->vars) : e->vars; if (s) out = s->v;
}
struct CacheKey { std::vector<u32> ids; bool operator==(const CacheKey& o) const { return ids == o.ids; } };
struct CKH { size_t operator()(const CacheKey& k) const { u64 h = 1469598103934665603ull; for (u32 i : k.ids) { h ^= i; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
struct CacheVal { Res r; std::vector<std::pair<u32,u64>> m; };
static std::unordered_map<CacheKey, CacheVal, CKH> g_cache;

static bool readModel(Z3_solver s, const std::vector<u32>& vars, CacheVal& cv) {
  Z3_model mo = Z3_solver_get_model(C, s); if (!mo) return false; Z3_model_inc_ref(C, mo);
  for (u32 v : vars) { Z3_ast out; u64 val = 0;
    if (v < mVar.size() && mVar[v] && Z3_model_eval(C, mo, mVar[v], true, &out)) { Z3_inc_ref(C, out); uint64_t t; if (Z3_get_numeral_uint64(C, out, &t)) val = t; Z3_dec_ref(C, out); }
    cv.m.push_back({v, val}); }
  Z3_model_dec_ref(C, mo); return true;
}
Res solverCheck(const std::vector<Expr*>& cs0, ModelV& m) {
  init();
  std::vector<Expr*> cs(cs0); std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  CacheKey key; for (auto e : cs) key.ids.push_back(e->id);
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_ss.cacheHits++; }
  else {
    double t0 = nowSecs(); g_ss.queries++;
    std::vector<u32> vars; collectVars(cs, vars);
    CacheVal cv; bool anyfp = false; for (auto e : cs) anyfp |= e->fp;
    Z3_lbool r = Z3_L_UNDEF;
    std::vector<Z3_ast> as; for (auto e : cs) as.push_back(bo(e));
    auto tryS = [&](Z3_solver s, unsigned to) {
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), to); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
      Z3_solver_push(C, s); for (auto a : as) Z3_solver_assert(C, s, a);
      r = Z3_solver_check(C, s); if (r == Z3_L_TRUE) readModel(s, vars, cv); Z3_solver_pop(C, s, 1); };
    if (!anyfp) tryS(S1, std::min(3000u, g_solverTimeoutMs));
    if (r == Z3_L_UNDEF) { // stand-alone tactic solver
      Z3_solver s = anyfp ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV")) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
      Z3_solver_inc_ref(C, s);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeoutMs); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
      for (auto a : as) Z3_solver_assert(C, s, a);
      r = Z3_solver_check(C, s); if (r == Z3_L_TRUE) readModel(s, vars, cv);
      Z3_solver_dec_ref(C, s);
    }
    if (getenv("DSX_SLOW") && nowSecs() - t0 > atof(getenv("DSX_SLOW"))) { fprintf(stderr, "SLOW %.2fs", nowSecs() - t0); for (auto e : cs) fprintf(stderr, "  & %s", exprStr(e, 6).c_str()); fprintf(stderr, "\n"); }
    cv.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (cv.r == SAT) { // validate model with our own evaluator
      ModelV mm; for (auto& p : cv.m) { if (mm.size() <= p.first) mm.resize(p.first + 1); mm[p.first] = p.second; }
      evalNewStamp(); for (auto e : cs) if (!evalExpr(e, mm)) { fprintf(stderr, "dsx: solver model does not satisfy: %s\n", exprStr(e, 5).c_str()); cv.r = UNKNOWN; break; }
    }
    (cv.r == SAT ? g_ss.sat : cv.r == UNSAT ? g_ss.unsat : g_ss.unknown)++;
    double dt = nowSecs() - t0; g_ss.secs += dt;
    if (dt > 2 && getenv("DSX_SLOW")) { fprintf(stderr, "slow query %.1fs res=%d\n", dt, cv.r); for (auto e : cs) fprintf(stderr, "   %s\n", exprStr(e, 8).c_str()); }
    it = g_cache.emplace(key, cv).first;
  }
  if (it->second.r == SAT) for (auto& p : it->second.m) { if (m.size() <= p.first) m.resize(p.first + 1); m[p.first] = p.second; }
  return it->second.r;
}

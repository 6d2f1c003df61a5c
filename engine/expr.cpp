#include "expr.h"
const char* opName[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","feq","flt","fle","fisnan","fptosi","sitofp","uitofp","fpext","fptrunc","fround","fsqrt"};
std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, Expr*> g_varByName;
static VarSet* g_emptyVS = nullptr;
static u32 g_nextId = 0;
size_t exprCount() { return g_nextId; }

struct KeyHash { size_t operator()(const Expr* e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 0x85ebca6bull + e->aux * 0xc2b2ae35ull;
  for (int i = 0; i < 3; i++) { h ^= (e->k[i] ? e->k[i]->id + 1 : 0); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
  h ^= (u64)e->c; h *= 0xc4ceb9fe1a85ec53ull; h ^= (u64)(e->c >> 64); h ^= h >> 29; return h; } };
struct KeyEq { bool operator()(const Expr* a, const Expr* b) const {
  return a->op == b->op && a->w == b->w && a->aux == b->aux && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->c == b->c; } };
#include <unordered_set>
static std::unordered_set<Expr*, KeyHash, KeyEq> g_table;

struct VSKey { size_t operator()(const std::pair<u32,u32>& p) const { return (u64)p.first * 0x9E3779B97F4A7C15ull ^ p.second * 0xc2b2ae3d27d4eb4full; } };
static std::unordered_map<std::pair<u32,u32>, VarSet*, VSKey> g_vsUnion;
#include <map>
static std::map<std::vector<u32>, VarSet*> g_vs;
static VarSet* vsIntern(std::vector<u32> v) {
  auto it = g_vs.find(v); if (it != g_vs.end()) return it->second;
  VarSet* s = new VarSet{v, (u32)g_vs.size()}; g_vs[v] = s; return s;
}
static VarSet* vsEmpty() { if (!g_emptyVS) g_emptyVS = vsIntern({}); return g_emptyVS; }
VarSet* vsUnion(VarSet* a, VarSet* b) {
  if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  auto key = std::make_pair(a->id, b->id);
  auto it = g_vsUnion.find(key); if (it != g_vsUnion.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  return g_vsUnion[key] = vsIntern(r);
}

static Expr* intern(const Expr& t) {
  auto it = g_table.find(const_cast<Expr*>(&t)); if (it != g_table.end()) return *it;
  static char* pool = nullptr; static size_t left = 0;
  if (left < sizeof(Expr)) { left = 1 << 20; pool = (char*)aligned_alloc(64, left); }
  Expr* e = (Expr*)pool; pool += (sizeof(Expr) + 15) & ~15; left -= std::min(left, (sizeof(Expr) + 15) & ~(size_t)15);
  *e = t; e->id = g_nextId++; e->stamp = 0;
  VarSet* vs = t.vars ? t.vars : vsEmpty(); bool un = t.uninit; u8 fp = (t.op >= E_FADD);
  for (int i = 0; i < 3; i++) if (t.k[i]) { vs = vsUnion(vs, t.k[i]->vars); un |= t.k[i]->uninit; fp |= t.k[i]->fp; }
  e->vars = vs; e->uninit = un; e->fp = fp; e->depth = 0; if (un) for (int i = 0; i < 3; i++) if (t.k[i]) e->depth = std::max<u32>(e->depth, t.k[i]->depth + 1);
  g_table.insert(e); return e;
}
static inline bool deepUninit(Expr* e) { return e && e->uninit && e->depth > 48; }
static Expr* raw(u8 op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0) {
  if (deepUninit(a) || deepUninit(b) || deepUninit(c)) return mkVar("uninit!", w, true); // a long computation on uninitialised data is just uninitialised
  Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.aux = aux; return intern(t);
}
Expr* mkConst(u128 c, unsigned w) { Expr t; memset(&t, 0, sizeof t); t.op = E_CONST; t.w = w; t.c = c & maskw(w); return intern(t); }
Expr* mkVar(const std::string& name, unsigned w, bool uninit) {
  std::string key = name + ":" + std::to_string(w);
  auto it = g_varByName.find(key); if (it != g_varByName.end()) return it->second;
  Expr t; memset(&t, 0, sizeof t); t.op = E_VAR; t.w = w; t.aux = g_vars.size(); t.uninit = uninit;
  t.vars = vsIntern({(u32)g_vars.size()});
  g_vars.push_back({name, w, uninit});
  return g_varByName[key] = intern(t);
}

static u64 cvttsd(double d, unsigned w) {
  if (w == 64) { if (d >= -9223372036854775808.0 && d < 9223372036854775808.0) return (u64)(i64)d; return 0x8000000000000000ull; }
  if (d > -2147483649.0 && d < 2147483648.0) return (u64)(u32)(int32_t)d; return 0x80000000ull;
}
static const u64 DNAN = 0xFFF8000000000000ull; static const u32 FNAN = 0xFFC00000u;
u128 foldOp(u8 op, unsigned w, u32 aux, u128 a, u128 b, u128 c, unsigned wa, unsigned wb) {
  u128 M = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & M; case E_SUB: return (a - b) & M; case E_MUL: return (a * b) & M;
    case E_UDIV: return b ? (a / b) & M : M; case E_UREM: return b ? (a % b) & M : a;
    case E_SDIV: { __int128 x = sextv(a, w), y = sextv(b, w); if (y == 0) return x < 0 ? 1 : M; if (y == -1) return (u128)(-(u128)x) & M; return (u128)(x / y) & M; }
    case E_SREM: { __int128 x = sextv(a, w), y = sextv(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return (a ^ b) & M;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & M; case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: { __int128 x = sextv(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : (unsigned)b)) & M; }
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sextv(a, wa) < sextv(b, wa); case E_SLE: return sextv(a, wa) <= sextv(b, wa);
    case E_ITE: return a ? b : c; case E_CONCAT: return ((a << wb) | b) & M;
    case E_EXTRACT: return (a >> aux) & M; case E_ZEXT: return a; case E_SEXT: return (u128)sextv(a, wa) & M;
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV:
      if (w == 64) { double x = bits2d(a), y = bits2d(b), r; r = op == E_FADD ? x + y : op == E_FSUB ? x - y : op == E_FMUL ? x * y : x / y; return r != r ? DNAN : d2bits(r); }
      else { float x = bits2f(a), y = bits2f(b), r; r = op == E_FADD ? x + y : op == E_FSUB ? x - y : op == E_FMUL ? x * y : x / y; return r != r ? FNAN : f2bits(r); }
    case E_FEQ: return wa == 64 ? bits2d(a) == bits2d(b) : bits2f(a) == bits2f(b);
    case E_FLT: return wa == 64 ? bits2d(a) < bits2d(b) : bits2f(a) < bits2f(b);
    case E_FLE: return wa == 64 ? bits2d(a) <= bits2d(b) : bits2f(a) <= bits2f(b);
    case E_FISNAN: return wa == 64 ? bits2d(a) != bits2d(a) : bits2f(a) != bits2f(a);
    case E_FPTOSI: return cvttsd(wa == 64 ? bits2d(a) : (double)bits2f(a), w) & M;
    case E_SITOFP: { __int128 x = sextv(a, wa); return w == 64 ? (u128)d2bits((double)(i64)x) : (u128)f2bits((float)(i64)x); }
    case E_UITOFP: return w == 64 ? (u128)d2bits((double)(u64)a) : (u128)f2bits((float)(u64)a);
    case E_FPEXT: { double r = bits2f(a); return r != r ? DNAN : d2bits(r); }
    case E_FPTRUNC: { float r = (float)bits2d(a); return r != r ? FNAN : f2bits(r); }
    case E_FROUND: { double x = bits2d(a), r = aux == 0 ? floor(x) : aux == 1 ? ceil(x) : aux == 2 ? trunc(x) : aux == 3 ? round(x) : nearbyint(x); return r != r ? DNAN : d2bits(r); }
    case E_FSQRT: { double r = sqrt(bits2d(a)); return r != r ? DNAN : d2bits(r); }
  }
  fprintf(stderr, "foldOp %d\n", op); abort();
}

Expr* mkNot(Expr* a) { // width-1
  return mk(E_XOR, 1, a, mkConst(1, 1));
}
// known exact integer source of an FP expression (value fits in 52 bits)
static bool intOf(Expr* e, Expr*& x) {
  if (e->w != 64) return false;
  if (e->isC()) {
    double d = bits2d((u64)e->c); if (d != d || d != trunc(d) || fabs(d) > 4503599627370496.0 || (d == 0 && std::signbit(d))) return false;
    x = mkConst((u128)(i64)d, 64); return true;
  }
  if (e->op == E_SITOFP || e->op == E_UITOFP) {
    Expr* s = e->k[0]; bool sg = e->op == E_SITOFP;
    unsigned b = s->w; if (s->op == E_ZEXT || s->op == E_SEXT) b = s->k[0]->w + 1;
    if (b > 52) { // sums of narrow things
      std::vector<std::pair<Expr*,int>> st{{s, 0}}; int n = 0; bool ok = true;
      while (!st.empty() && ok) { auto [t, d] = st.back(); st.pop_back(); if (++n > 64) ok = false;
        if (t->op == E_ADD || t->op == E_SUB) { if (d > 10) ok = false; st.push_back({t->k[0], d + 1}); st.push_back({t->k[1], d + 1}); }
        else if (t->op == E_SEXT || t->op == E_ZEXT) { if (t->k[0]->w > 34) ok = false; }
        else if (t->op == E_ITE) { st.push_back({t->k[1], d}); st.push_back({t->k[2], d}); }
        else if (t->isC()) { __int128 v = sextv(t->c, t->w); if (v > ((i64)1 << 40) || v < -((i64)1 << 40)) ok = false; }
        else ok = false; }
      if (!ok) return false;
    }
    x = s->w == 64 ? s : sg ? mkSext(s, 64) : mkZext(s, 64); return true;
  }
  if (e->op == E_ITE) { Expr *a, *b; if (intOf(e->k[1], a) && intOf(e->k[2], b)) { x = mkIte(e->k[0], a, b); return true; } }
  return false;
}
static bool neverNanBox(Expr* e) { // FP-op result: exponent/quiet pattern never equals a boxed value
  if (e->op == E_SITOFP || e->op == E_UITOFP || (e->op >= E_FADD && e->op <= E_FDIV) || e->op == E_FPEXT || e->op == E_FROUND || e->op == E_FSQRT) return e->w == 64;
  if (e->op == E_ITE) return neverNanBox(e->k[1]) && neverNanBox(e->k[2]);
  if (e->isC()) return (e->c & 0x7ffc000000000000ull) != 0x7ffc000000000000ull;
  return false;
}

Expr* mkZext(Expr* a, unsigned w) { return a->w == w ? a : mk(E_ZEXT, w, a); }
Expr* mkSext(Expr* a, unsigned w) { return a->w == w ? a : mk(E_SEXT, w, a); }
Expr* mkEq(Expr* a, Expr* b) { return mk(E_EQ, 1, a, b); }
Expr* mkIte(Expr* c, Expr* a, Expr* b) { return mk(E_ITE, a->w, c, a, b); }
Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (a->isC()) return mkConst(a->c >> off, w);
  switch (a->op) {
    case E_EXTRACT: return mkExtract(a->k[0], a->aux + off, w);
    case E_CONCAT: { unsigned lw = a->k[1]->w; if (off >= lw) return mkExtract(a->k[0], off - lw, w); if (off + w <= lw) return mkExtract(a->k[1], off, w);
      return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off)); }
    case E_ZEXT: { unsigned iw = a->k[0]->w; if (off + w <= iw) return mkExtract(a->k[0], off, w); if (off >= iw) return mkConst(0, w); 
      return mkZext(mkExtract(a->k[0], off, iw - off), w); }
    case E_SEXT: { unsigned iw = a->k[0]->w; if (off + w <= iw) return mkExtract(a->k[0], off, w); if (off == 0) return mkSext(a->k[0], w); break; }
    case E_AND: case E_OR: case E_XOR: if (a->k[1]->isC()) return mk(a->op, w, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w)); break;
    case E_ADD: case E_SUB: case E_MUL: if (off == 0) { static std::unordered_map<u64, Expr*> memo; u64 key = (u64)a->id << 8 | w; auto it = memo.find(key); if (it != memo.end()) return it->second; Expr* r = mk(a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); memo[key] = r; return r; } break;
    case E_SHL: if (a->k[1]->isC()) { unsigned s = (unsigned)a->k[1]->c; if (off >= s) return mkExtract(a->k[0], off - s, w); if (off + w <= s) return mkConst(0, w); } break;
    case E_LSHR: if (a->k[1]->isC()) { unsigned s = (unsigned)a->k[1]->c; if (off + s + w <= a->w) return mkExtract(a->k[0], off + s, w); } break;
    case E_ITE: if (!a->fp && (a->k[1]->isC() || a->k[2]->isC())) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w)); break;
  }
  return raw(E_EXTRACT, w, a, nullptr, nullptr, off);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isC() && lo->isC()) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->isC() && hi->c == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(lo->k[0], lo->aux, w);
  // lo is a full expr E and hi is extract from ... handled by bytes being extracts
  if (hi->op == E_EXTRACT && lo->op == E_CONCAT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  for (u8 op : {(u8)E_XOR, (u8)E_AND}) { // pieces of (x op constant) reassemble to one operation
    bool h = hi->op == op && hi->k[1]->isC(), l = lo->op == op && lo->k[1]->isC(); if (!h && !l) continue;
    Expr *a = h ? hi->k[0] : hi, *b = l ? lo->k[0] : lo; if (a->op != E_EXTRACT || b->op != E_EXTRACT || a->k[0] != b->k[0] || a->aux != b->aux + b->w) continue;
    u128 ch = h ? hi->k[1]->c : op == E_XOR ? 0 : maskw(hi->w), cl = l ? lo->k[1]->c : op == E_XOR ? 0 : maskw(lo->w);
    return mk(op, w, mkExtract(a->k[0], b->aux, w), mkConst((ch << lo->w) | cl, w)); }
  if (lo->op == E_CONCAT && lo->k[0]->isC() && hi->isC()) return mkConcat(mkConst((hi->c << lo->k[0]->w) | lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  return raw(E_CONCAT, w, hi, lo);
}

// results of floating-point operations: the only NaNs are 0xFFF8000000000000 and, after a sign flip, 0x7FF8000000000000
static bool fpNum(Expr* e, int depth = 4) {
  if (e->w != 64) return false;
  switch (e->op) { case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_SITOFP: case E_UITOFP: case E_FSQRT: case E_FROUND: case E_FPEXT: return true;
    case E_VAR: return g_vars[e->aux].name.compare(0, 3, "uf_") == 0;
    case E_CONST: return ((u64)e->c & 0x7ffc000000000000ull) != 0x7ffc000000000000ull;
    case E_XOR: return e->k[1]->isC() && (u64)e->k[1]->c == 1ull << 63 && fpNum(e->k[0], depth);
    case E_AND: return e->k[1]->isC() && (u64)e->k[1]->c == ~(1ull << 63) && fpNum(e->k[0], depth);
    case E_ITE: return depth > 0 && fpNum(e->k[1], depth - 1) && fpNum(e->k[2], depth - 1); }
  return false; }
// integers carried in doubles: sums and products are zero exactly when the operands say so (no underflow below 2^-62)
static bool fpInt(Expr* e, int depth = 3) { if (e->w != 64) return false; if (e->isC()) { double d = bits2d((u64)e->c); return d == std::trunc(d) && std::fabs(d) < 2147483648.0; }
  if (e->op == E_SITOFP || e->op == E_UITOFP) { Expr* k = e->k[0]; while (k->op == E_SEXT || k->op == E_ZEXT) k = k->k[0]; return k->w <= 34; }
  if (e->op == E_XOR) return e->k[1]->isC() && (u64)e->k[1]->c == 1ull << 63 && fpInt(e->k[0], depth);
  if (e->op == E_ITE && depth > 0) return fpInt(e->k[1], depth - 1) && fpInt(e->k[2], depth - 1);
  return false; }
static const u64 TAGBITS = 0x7ffc000000000000ull;
static bool commut(u8 op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ || op == E_FADD || op == E_FMUL || op == E_FEQ; }

Expr* mk(u8 op, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux) {
  if (op == E_EXTRACT) return mkExtract(a, aux, w);
  if (op == E_CONCAT) return mkConcat(a, b);
  if (op != E_ITE && a->isC() && (!b || b->isC())) return mkConst(foldOp(op, w, aux, a->c, b ? b->c : 0, 0, a->w, b ? b->w : 0), w);
  if (op == E_ITE) {
    if (a->isC()) return a->c ? b : c;
    if (b == c) return b;
    if (w == 1) {
      if (b->isC() && c->isC()) return b->c ? a : mkNot(a);
      if (b->isC()) return b->c ? mk(E_OR, 1, a, c) : mk(E_AND, 1, mkNot(a), c);
      if (c->isC()) return c->c ? mk(E_OR, 1, mkNot(a), b) : mk(E_AND, 1, a, b);
    }
    if (a->op == E_XOR && a->w == 1 && a->k[1]->isC()) return mk(E_ITE, w, a->k[0], c, b);
    if (b->op == E_ITE && b->k[0] == a) return mk(E_ITE, w, a, b->k[1], c);
    if (c->op == E_ITE && c->k[0] == a) return mk(E_ITE, w, a, b, c->k[2]);
    if (c->op == E_ITE && c->k[1] == b) return mk(E_ITE, w, mk(E_OR, 1, a, c->k[0]), b, c->k[2]);
    return raw(E_ITE, w, a, b, c);
  }
  if (commut(op)) { if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b); }
  bool bc = b && b->isC(); u128 M = maskw(w);
  switch (op) {
    case E_ADD:
      if (bc && b->c == 0) return a;
      if (bc && a->op == E_ADD && a->k[1]->isC()) return mk(E_ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (bc && a->op == E_SUB && a->k[0]->isC()) return mk(E_SUB, w, mkConst(a->k[0]->c + b->c, w), a->k[1]);
      if (bc && a->op == E_ITE && (a->k[1]->isC() || a->k[2]->isC())) return mkIte(a->k[0], mk(E_ADD, w, a->k[1], b), mk(E_ADD, w, a->k[2], b));
      break;
    case E_SUB:
      if (a == b) return mkConst(0, w);
      if (bc) return mk(E_ADD, w, a, mkConst(-b->c, w));
      if (a->op == E_ADD && a->k[0] == b) return a->k[1];
      if (a->op == E_ADD && a->k[1] == b) return a->k[0];
      if (a->op == E_ADD && a->k[1]->isC() && b->op == E_ADD && b->k[1]->isC() && a->k[0] == b->k[0]) return mkConst(a->k[1]->c - b->k[1]->c, w);
      if (b->op == E_ADD && b->k[1]->isC() && b->k[0] == a) return mkConst(-b->k[1]->c, w);
      break;
    case E_MUL:
      if (bc && b->c == 0) return b; if (bc && b->c == 1) return a;
      if (bc && (b->c & (b->c - 1)) == 0) { unsigned s = 0; u128 t = b->c; while (!(t & 1)) { t >>= 1; s++; } return mk(E_SHL, w, a, mkConst(s, w)); }
      break;
    case E_UDIV: if (bc && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; u128 t = b->c; while (!(t & 1)) { t >>= 1; s++; } return mk(E_LSHR, w, a, mkConst(s, w)); } break;
    case E_UREM: if (bc && b->c && (b->c & (b->c - 1)) == 0) return mk(E_AND, w, a, mkConst(b->c - 1, w)); break;
    case E_SDIV: if (bc && b->c == 1) return a; break;
    case E_AND:
      if (a == b) return a; if (bc && b->c == 0) return b; if (bc && b->c == M) return a;
      if (bc && a->op == E_AND && a->k[1]->isC()) return mk(E_AND, w, a->k[0], mkConst(a->k[1]->c & b->c, w));
      if (bc && a->op == E_ZEXT) { u128 im = maskw(a->k[0]->w); if ((b->c & im) == im) return a; return mkZext(mk(E_AND, a->k[0]->w, a->k[0], mkConst(b->c & im, a->k[0]->w)), w); }
      if (bc && a->op == E_CONCAT) { unsigned lw = a->k[1]->w; return mkConcat(mk(E_AND, a->k[0]->w, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mk(E_AND, lw, a->k[1], mkConst(b->c, lw))); }
      if (bc && a->op == E_OR && a->k[1]->isC()) { if ((a->k[1]->c & b->c) == b->c) return b; return mk(E_OR, w, mk(E_AND, w, a->k[0], b), mkConst(a->k[1]->c & b->c, w)); }
      if (bc && a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mk(E_AND, w, a->k[1], b), mk(E_AND, w, a->k[2], b));
      if (bc && ((b->c + 1) & b->c) == 0 && w > 1) { unsigned n = 0; u128 t = b->c; while (t) { t >>= 1; n++; } if (n < w) return mkZext(mkExtract(a, 0, n), w); }
      if (w == 1 && (mkNot(a) == b)) return mkConst(0, 1);
      break;
    case E_OR:
      if (a == b) return a; if (bc && b->c == 0) return a; if (bc && b->c == M) return b;
      if (bc && a->op == E_OR && a->k[1]->isC()) return mk(E_OR, w, a->k[0], mkConst(a->k[1]->c | b->c, w));
      if (bc && a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mk(E_OR, w, a->k[1], b), mk(E_OR, w, a->k[2], b));
      if (w == 1 && (mkNot(a) == b)) return mkConst(1, 1);
      // (x<<k) | zext(y) -> concat
      if (!bc && w > 1) for (int s = 0; s < 2; s++) { Expr* p = s ? b : a; Expr* q = s ? a : b;
        if (p->op == E_SHL && p->k[1]->isC() && q->op == E_ZEXT && q->k[0]->w <= p->k[1]->c && p->k[1]->c < w) {
          unsigned sh = (unsigned)p->k[1]->c; return mkConcat(mkExtract(p->k[0], 0, w - sh), mkZext(q->k[0], sh)); } 
        if (p->op == E_CONCAT && p->k[1]->isC() && p->k[1]->c == 0 && q->op == E_ZEXT && q->k[0]->w <= p->k[1]->w)
          return mkConcat(p->k[0], mkZext(q->k[0], p->k[1]->w)); }
      break;
    case E_XOR:
      if (a == b) return mkConst(0, w); if (bc && b->c == 0) return a;
      if (bc && a->op == E_XOR && a->k[1]->isC()) return mk(E_XOR, w, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      if (w == 1 && bc) {
        if (a->op == E_ULT) return mk(E_ULE, 1, a->k[1], a->k[0]); if (a->op == E_ULE) return mk(E_ULT, 1, a->k[1], a->k[0]);
        if (a->op == E_SLT) return mk(E_SLE, 1, a->k[1], a->k[0]); if (a->op == E_SLE) return mk(E_SLT, 1, a->k[1], a->k[0]);
      }
      if (bc && a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mk(E_XOR, w, a->k[1], b), mk(E_XOR, w, a->k[2], b));
      break;
    case E_SHL: if (bc && b->c == 0) return a; if (bc && b->c >= w) return mkConst(0, w);
      if (bc) { unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); } break;
    case E_LSHR: if (bc && b->c == 0) return a; if (bc && b->c >= w) return mkConst(0, w);
      if (bc) return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w); break;
    case E_ASHR: if (bc && b->c == 0) return a;
      if (bc && b->c < w) return mkSext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w); break;
    case E_ZEXT: if (a->op == E_ZEXT) return mkZext(a->k[0], w);
      if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w)); break;
    case E_SEXT: if (a->op == E_SEXT) return mkSext(a->k[0], w); if (a->op == E_ZEXT) return mkZext(a->k[0], w);
      if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w)); break;
    case E_EQ:
      if (a == b) return mkConst(1, 1);
      if (bc && w == 1 && a->w == 64 && ((u64)b->c & TAGBITS) == TAGBITS) { if (fpNum(a)) return mkConst(0, 1); if (a->op == E_AND && a->k[1]->isC() && ((u64)a->k[1]->c & TAGBITS) == TAGBITS && fpNum(a->k[0])) return mkConst(0, 1); }
      if (a->w == 1 && bc) return b->c ? a : mkNot(a);
      if (bc) {
        u128 v = b->c;
        if (a->op == E_ZEXT) { if (v > maskw(a->k[0]->w)) return mkConst(0, 1); return mkEq(a->k[0], mkConst(v, a->k[0]->w)); }
        if (a->op == E_SEXT) { Expr* t = mkConst(v, a->k[0]->w); if (((u128)sextv(t->c, t->w) & maskw(a->w)) != v) return mkConst(0, 1); return mkEq(a->k[0], t); }
        if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; return mk(E_AND, 1, mkEq(a->k[0], mkConst(v >> lw, a->k[0]->w)), mkEq(a->k[1], mkConst(v, lw))); }
        if (a->op == E_ADD && a->k[1]->isC()) return mkEq(a->k[0], mkConst(v - a->k[1]->c, a->w));
        if (a->op == E_XOR && a->k[1]->isC()) return mkEq(a->k[0], mkConst(v ^ a->k[1]->c, a->w));
        if (a->op == E_SUB && a->k[0]->isC()) return mkEq(a->k[1], mkConst(a->k[0]->c - v, a->w));
        if (a->op == E_SUB && v == 0) return mkEq(a->k[0], a->k[1]);
        if (a->op == E_OR && a->k[1]->isC() && (a->k[1]->c & v) != a->k[1]->c) return mkConst(0, 1);
        if (a->op == E_OR && a->k[1]->isC() && a->k[1]->c && neverNanBox(a->k[0])) { /* keep */ }
        if (a->op == E_AND && a->k[1]->isC()) {
          if (v & ~a->k[1]->c) return mkConst(0, 1);
          if (a->w == 64 && (u64)a->k[1]->c == (u64)v && ((u64)v & 0x7ffc000000000000ull) == 0x7ffc000000000000ull && neverNanBox(a->k[0])) return mkConst(0, 1);
          if (v == a->k[1]->c && (v & (v - 1)) == 0 && v) { unsigned n = 0; u128 t = v; while (t > 1) { t >>= 1; n++; } if (a->w > 1) return mkEq(mkExtract(a->k[0], n, 1), mkConst(1, 1)); }
        }
        if (a->op == E_ITE) { Expr* x = a->k[1]; Expr* y = a->k[2];
          if (x->isC() || y->isC()) return mkIte(a->k[0], mkEq(x, b), mkEq(y, b)); }
        if (a->w == 64 && (((u64)v & 0x7ffc000000000000ull) == 0x7ffc000000000000ull) && neverNanBox(a)) return mkConst(0, 1);
        if (a->w == 64 && a->op == E_OR && a->k[1]->isC() && (((u64)v & 0x7ffc000000000000ull) == 0x7ffc000000000000ull) && a->k[1]->c < (1ull << 50) && neverNanBox(a->k[0])) return mkConst(0, 1);
        Expr *ia, *ib;
        if ((a->op == E_SITOFP || a->op == E_UITOFP) && intOf(a, ia)) { if (intOf(b, ib)) return mkEq(ia, ib); return mkConst(0, 1); }
      } else {
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        Expr *ia, *ib; if (a->w == 64 && a->op == E_SITOFP && b->op == E_SITOFP && intOf(a, ia) && intOf(b, ib)) return mkEq(ia, ib);
      }
      break;
    case E_ULT: case E_ULE: case E_SLT: case E_SLE: {
      if (a == b) return mkConst(op == E_ULE || op == E_SLE, 1);
      bool ac = a->isC();
      { const u64 top = 0xFFF8000000000000ull; if (op == E_ULT || op == E_ULE) {
        if (ac && b->w == 64 && (u64)a->c + (op == E_ULT) > top && (u64)a->c >= top && fpNum(b)) return mkConst(0, 1);
        if (bc && a->w == 64 && (u64)b->c + (op == E_ULE) > top && (u64)b->c >= top && fpNum(a)) return mkConst(1, 1); } }
      if (op == E_ULT && bc && b->c == 0) return mkConst(0, 1);
      if (op == E_ULT && bc && b->c == 1) return mkEq(a, mkConst(0, a->w));
      if (op == E_ULE && ac && a->c == 0) return mkConst(1, 1);
      if (op == E_ULE && bc && b->c == maskw(b->w)) return mkConst(1, 1);
      if (op == E_ULT && ac && a->c == 0) return mkNot(mkEq(b, a));
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op, 1, a->k[0], b->k[0]);
      if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w && op >= E_SLT) return mk(op, 1, a->k[0], b->k[0]);
      if (op >= E_SLT && a->op == E_SEXT && bc) { unsigned iw = a->k[0]->w; __int128 v = sextv(b->c, b->w), lo = -((__int128)1 << (iw - 1)), hi = ((__int128)1 << (iw - 1)) - 1;
        if (v > hi) return mkConst(1, 1); if (v < lo) return mkConst(0, 1); return mk(op, 1, a->k[0], mkConst((u128)v, iw)); }
      if (op >= E_SLT && b->op == E_SEXT && ac) { unsigned iw = b->k[0]->w; __int128 v = sextv(a->c, a->w), lo = -((__int128)1 << (iw - 1)), hi = ((__int128)1 << (iw - 1)) - 1;
        if (v > hi) return mkConst(0, 1); if (v < lo) return mkConst(1, 1); return mk(op, 1, mkConst((u128)v, iw), b->k[0]); }
      if (a->op == E_ZEXT && bc) { u128 im = maskw(a->k[0]->w); unsigned iw = a->k[0]->w;
        if (op >= E_SLT && sextv(b->c, b->w) < 0) return mkConst(0, 1);
        if (b->c > im) return mkConst(1, 1); return mk(op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op, 1, a->k[0], mkConst(b->c, iw)); }
      if (b->op == E_ZEXT && ac) { u128 im = maskw(b->k[0]->w); unsigned iw = b->k[0]->w;
        if (op >= E_SLT && sextv(a->c, a->w) < 0) return mkConst(1, 1);
        if (a->c > im) return mkConst(0, 1); return mk(op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op, 1, mkConst(a->c, iw), b->k[0]); }
      if (a->op == E_ITE && bc && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mk(op, 1, a->k[1], b), mk(op, 1, a->k[2], b));
      if (b->op == E_ITE && ac && b->k[1]->isC() && b->k[2]->isC()) return mkIte(b->k[0], mk(op, 1, a, b->k[1]), mk(op, 1, a, b->k[2]));
      break; }
    case E_FEQ: case E_FLT: case E_FLE: {
      Expr *ia, *ib; bool ka = intOf(a, ia), kb = intOf(b, ib);
      if (ka && kb) return op == E_FEQ ? mkEq(ia, ib) : mk(op == E_FLT ? E_SLT : E_SLE, 1, ia, ib);
      if (op == E_FEQ && a->w == 64) { Expr *t = bc ? a : b, *z = bc ? b : a; if (z->isC() && ((u64)z->c << 1) == 0 && (t->op == E_FMUL || t->op == E_FDIV || t->op == E_FADD || t->op == E_FSUB || (t->op == E_XOR && t->k[1]->isC() && (u64)t->k[1]->c == 1ull << 63))) {
          Expr *zc = mkConst(0, 64); if (t->op == E_XOR) return mk(E_FEQ, 1, t->k[0], zc);
          if (fpInt(t->k[0]) && fpInt(t->k[1])) { if (t->op == E_FMUL) return mk(E_OR, 1, mk(E_FEQ, 1, t->k[0], zc), mk(E_FEQ, 1, t->k[1], zc));
            if (t->op == E_FDIV) return mk(E_AND, 1, mk(E_FEQ, 1, t->k[0], zc), mkNot(mk(E_FEQ, 1, t->k[1], zc)));
            return mk(E_FEQ, 1, t->k[0], t->op == E_FADD ? mk(E_XOR, 64, t->k[1], mkConst(1ull << 63, 64)) : t->k[1]); } } }
      if (op == E_FEQ && a->w == 64 && bc && ka) { double d = bits2d((u64)b->c); if (d == 0) return mkEq(ia, mkConst(0, 64)); if (d != d || d != trunc(d)) return mkConst(0, 1); }
      if (op == E_FEQ && a->w == 64 && a->isC() && kb) { double d = bits2d((u64)a->c); if (d == 0) return mkEq(ib, mkConst(0, 64)); if (d != d || d != trunc(d)) return mkConst(0, 1); }
      if (op != E_FEQ && a->w == 64 && ((ka && bc) || (kb && a->isC()))) { // integer vs non-integral/large constant
        double d = bits2d((u64)(bc ? b->c : a->c)); if (d != d) return mkConst(0, 1);
        if (d == 0) d = 0;
        if (ka && bc) { if (d > 9e15) return mkConst(1, 1); if (d < -9e15) return mkConst(0, 1); // ia < d  <=> ia < ceil(d) for non-int
          i64 f = (i64)(op == E_FLT ? ceil(d) : floor(d)); return mk(op == E_FLT ? E_SLT : E_SLE, 1, ia, mkConst((u128)(__int128)f, 64)); }
        else { if (d > 9e15) return mkConst(0, 1); if (d < -9e15) return mkConst(1, 1);
          i64 f = (i64)(op == E_FLT ? floor(d) : ceil(d)); return mk(op == E_FLT ? E_SLT : E_SLE, 1, mkConst((u128)(__int128)f, 64), ib); }
      }
      break; }
    case E_FISNAN: if (a->op == E_SITOFP || a->op == E_UITOFP) return mkConst(0, 1); { Expr* ia; if (intOf(a, ia)) return mkConst(0, 1); } break;
    case E_FADD: case E_FSUB: { Expr *ia, *ib; if (w == 64 && intOf(a, ia) && intOf(b, ib)) { Expr* s = mk(op == E_FADD ? E_ADD : E_SUB, 64, ia, ib);
        if (s->isC()) return mkConst(d2bits((double)(i64)s->c), 64);
        Expr* r = mk(E_SITOFP, 64, s); Expr* t; if (intOf(r, t)) return r; } break; }
    case E_FPTOSI: { Expr* ia; if (a->w == 64 && intOf(a, ia)) {
        if (w == 64) return ia;
        Expr* inr = mk(E_AND, 1, mk(E_SLE, 1, mkConst((u128)(__int128)INT32_MIN, 64), ia), mk(E_SLE, 1, ia, mkConst(INT32_MAX, 64)));
        return mkIte(inr, mkExtract(ia, 0, 32), mkConst(0x80000000u, 32)); } break; }
    case E_FROUND: { Expr* ia; if (a->w == 64 && intOf(a, ia)) return a; break; }
    case E_SITOFP: if (a->op == E_ZEXT) return mk(E_UITOFP, w, a->k[0]); if (a->op == E_SEXT) return mk(E_SITOFP, w, a->k[0]);
      if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mk(op, w, a->k[1]), mk(op, w, a->k[2])); break;
    case E_UITOFP: if (a->op == E_ZEXT) return mk(E_UITOFP, w, a->k[0]); break;
    case E_FPEXT: break;
  }
  return raw(op, w, a, b, c, aux);
}

std::string exprStr(Expr* e, int depth) {
  char buf[64];
  if (e->isC()) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == E_VAR) return g_vars[e->aux].name;
  if (depth == 0) return "...";
  std::string s = "("; s += opName[e->op]; if (e->op == E_EXTRACT) s += "[" + std::to_string(e->aux) + "," + std::to_string(e->w) + "]";
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}

static u64 g_stamp = 1;
void evalNewStamp() { g_stamp++; }
u128 evalExpr(Expr* e, const ModelV& m) {
  if (e->isC()) return e->c;
  if (e->op == E_VAR) return e->aux < m.size() ? (u128)m[e->aux] & maskw(e->w) : 0;
  if (e->stamp == g_stamp) return e->ev;
  // iterative for deep DAGs
  static thread_local int depth = 0;
  u128 r;
  if (depth > 20000) {
    std::vector<Expr*> st{e};
    while (!st.empty()) { Expr* t = st.back(); bool ready = true;
      for (int i = 0; i < 3; i++) if (t->k[i]) { Expr* q = t->k[i]; if (!q->isC() && q->op != E_VAR && q->stamp != g_stamp) { st.push_back(q); ready = false; } }
      if (ready) { auto gv = [&](Expr* q) -> u128 { return !q ? 0 : q->isC() ? q->c : q->op == E_VAR ? (q->aux < m.size() ? (u128)m[q->aux] & maskw(q->w) : 0) : q->ev; };
        t->ev = foldOp(t->op, t->w, t->aux, gv(t->k[0]), gv(t->k[1]), gv(t->k[2]), t->k[0]->w, t->k[1] ? t->k[1]->w : 0); t->stamp = g_stamp; st.pop_back(); } }
    return e->ev;
  }
  depth++;
  if (e->op == E_ITE) { u128 c = evalExpr(e->k[0], m); r = evalExpr(c ? e->k[1] : e->k[2], m); }
  else { u128 a = evalExpr(e->k[0], m); u128 b = e->k[1] ? evalExpr(e->k[1], m) : 0; r = foldOp(e->op, e->w, e->aux, a, b, 0, e->k[0]->w, e->k[1] ? e->k[1]->w : 0); }
  depth--;
  e->stamp = g_stamp; e->ev = r; return r;
}

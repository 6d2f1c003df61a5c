// dsx: symbolic executor for LLVM-18 bitcode (C programs), SMT-backed (Z3).
#include <functional>
// Explores every feasible path of an entry function over symbolic inputs; checks memory safety and assertions.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <map>
#include <deque>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
using namespace llvm;

// ---------------------------------------------------------------- values
struct Val { u64 c; Expr* e; };
static inline Val CV(u64 c) { return {c, nullptr}; }
static inline Val fromE(Expr* e) { if (e->isC() && e->w <= 64) return {(u64)e->c, nullptr}; return {0, e}; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
static const unsigned PG = 256;
struct Page { int ref; u32 n; Expr** sym; u8* un; u8 data[1]; };
static Page* pgNew(u32 n) { Page* p = (Page*)malloc(sizeof(Page) + n); p->ref = 1; p->n = n; p->sym = nullptr; p->un = nullptr; memset(p->data, 0, n); return p; }
static void pgRel(Page* p) { if (--p->ref == 0) { free(p->sym); free(p->un); free(p); } }
static Page* pgCopy(Page* o) { Page* p = (Page*)malloc(sizeof(Page) + o->n); memcpy(p, o, sizeof(Page) + o->n); p->ref = 1;
  if (o->sym) { p->sym = (Expr**)malloc(sizeof(Expr*) * o->n); memcpy(p->sym, o->sym, sizeof(Expr*) * o->n); }
  if (o->un) { p->un = (u8*)malloc(o->n); memcpy(p->un, o->un, o->n); } return p; }
enum { K_GLOBAL, K_STACK, K_HEAP };
struct Obj { int ref; u8 kind; bool freed, ro; u64 base, size; const char* site; std::vector<Page*> pages; };
static void objRel(Obj* o) { if (--o->ref == 0) { for (auto p : o->pages) pgRel(p); delete o; } }
struct Chunk { int ref; Obj* o[64]; };
static void chRel(Chunk* c) { if (--c->ref == 0) { for (auto o : c->o) if (o) objRel(o); delete c; } }
struct Mem {
  struct Cls { std::vector<Chunk*> ch; u32 n = 0; };
  Cls cls[32]; u64 heapObjs = 0, heapBytes = 0;
  Mem() {}
  Mem(const Mem& m) { for (int i = 0; i < 32; i++) { cls[i] = m.cls[i]; for (auto c : cls[i].ch) c->ref++; } heapObjs = m.heapObjs; heapBytes = m.heapBytes; }
  ~Mem() { for (auto& c : cls) for (auto x : c.ch) chRel(x); }
  static unsigned classOf(u64 size) { unsigned k = 5; while (((u64)1 << k) < size) k++; return k; }
  u64 alloc(u64 size, u8 kind, const char* site, bool zero, bool uninit) {
    unsigned k = classOf(size); Cls& c = cls[k]; u32 i = c.n++;
    if (i / 64 >= c.ch.size()) { Chunk* n = new Chunk; n->ref = 1; memset(n->o, 0, sizeof n->o); c.ch.push_back(n); }
    u64 base = ((u64)(k + 1) << 40) + ((u64)i << (k + 1)) + ((u64)1 << (k - 1));
    Obj* o = new Obj; o->ref = 1; o->kind = kind; o->freed = false; o->ro = false; o->base = base; o->size = size; o->site = site;
    for (u64 q = 0; q < size; q += PG) { Page* p = pgNew((u32)std::min<u64>(PG, size - q)); if (!zero) memset(p->data, 0xCD, p->n); if (uninit) { p->un = (u8*)malloc(p->n); memset(p->un, 1, p->n); } o->pages.push_back(p); }
    wchunk(c, i / 64)->o[i % 64] = o;
    if (kind == K_HEAP) { heapObjs++; heapBytes += size; }
    return base;
  }
  Chunk* wchunk(Cls& c, u32 ci) { Chunk* x = c.ch[ci]; if (x->ref > 1) { Chunk* n = new Chunk(*x); n->ref = 1; for (auto o : n->o) if (o) o->ref++; x->ref--; c.ch[ci] = n; x = n; } return x; }
  inline Obj* find(u64 a) { // object slot containing address (may be out of object's bounds)
    u64 k = (a >> 40) - 1; if (k >= 32 || k < 5) return nullptr; u32 i = (u32)((a & (((u64)1 << 40) - 1)) >> (k + 1)); Cls& c = cls[k]; if (i >= c.n) return nullptr; return c.ch[i / 64]->o[i % 64]; }
  Obj* findW(u64 a) { u64 k = (a >> 40) - 1; u32 i = (u32)((a & (((u64)1 << 40) - 1)) >> (k + 1)); Cls& c = cls[k]; Chunk* ch = wchunk(c, i / 64); Obj*& o = ch->o[i % 64];
    if (o->ref > 1) { Obj* n = new Obj(*o); n->ref = 1; for (auto p : n->pages) p->ref++; o->ref--; o = n; } return o; }
  static Page* wpage(Obj* o, u32 pi) { Page* p = o->pages[pi]; if (p->ref > 1) { Page* n = pgCopy(p); p->ref--; o->pages[pi] = n; return n; } return p; }
};
static Expr* uninitVar(Obj* o, u64 off) { char b[64]; snprintf(b, sizeof b, "uninit@%llx+%llu", (unsigned long long)o->base, (unsigned long long)off); return mkVar(b, 8, true); }
static bool g_uninit = true;
static Val memRead(Obj* o, u64 off, unsigned nb) {
  u32 pi = off / PG, po = off % PG; Page* p = o->pages[pi];
  if (po + nb <= p->n && !p->sym && !p->un && nb <= 8) { u64 v = 0; memcpy(&v, p->data + po, nb); return CV(v); }
  bool any = false; u8 b[32]; Expr* es[32];
  for (unsigned i = 0; i < nb; i++) { u64 q = off + i; Page* g = o->pages[q / PG]; u32 r = q % PG; es[i] = nullptr; b[i] = g->data[r];
    if (g->sym && g->sym[r]) { es[i] = g->sym[r]; any = true; } else if (g->un && g->un[r]) { es[i] = uninitVar(o, q); any = true; } }
  if (!any && nb <= 8) { u64 v = 0; memcpy(&v, b, nb); return CV(v); }
  Expr* r = nullptr;
  for (unsigned i = 0; i < nb; i++) { Expr* x = es[i] ? es[i] : mkConst(b[i], 8); r = r ? mkConcat(x, r) : x; }
  return fromE(r);
}
static void memWrite(Obj* o, u64 off, unsigned nb, const Val& v) { // o must be writable (COW done)
  u32 pi = off / PG, po = off % PG;
  if (!v.e) {
    Page* p = Mem::wpage(o, pi);
    if (po + nb <= p->n && !p->sym && !p->un) { memcpy(p->data + po, &v.c, nb); return; }
    for (unsigned i = 0; i < nb; i++) { u64 q = off + i; Page* g = Mem::wpage(o, q / PG); u32 r = q % PG; g->data[r] = i < 8 ? (u8)(v.c >> (8 * i)) : 0; if (g->sym) g->sym[r] = nullptr; if (g->un) g->un[r] = 0; }
    return;
  }
  for (unsigned i = 0; i < nb; i++) { u64 q = off + i; Page* g = Mem::wpage(o, q / PG); u32 r = q % PG;
    Expr* x = v.e->w < nb * 8 ? mkExtract(mkZext(v.e, nb * 8), 8 * i, 8) : mkExtract(v.e, 8 * i, 8);
    if (g->un) g->un[r] = 0;
    if (x->isC()) { g->data[r] = (u8)x->c; if (g->sym) g->sym[r] = nullptr; }
    else { if (!g->sym) g->sym = (Expr**)calloc(g->n, sizeof(Expr*)); g->sym[r] = x; g->data[r] = 0; } }
}

// ---------------------------------------------------------------- program
enum XOp : u16 { X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM, X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR,
  X_FADD, X_FSUB, X_FMUL, X_FDIV, X_FREM, X_FNEG, X_ICMP, X_FCMP, X_ZEXT, X_SEXT, X_TRUNC, X_MOV, X_FPTOSI, X_FPTOUI, X_SITOFP, X_UITOFP, X_FPEXT, X_FPTRUNC,
  X_SELECT, X_LOAD, X_STORE, X_GEPC, X_GEP, X_ALLOCA, X_BR, X_CBR, X_SWITCH, X_IBR, X_RET, X_CALL, X_UNREACH, X_MOVN, X_NOP, X_INTRIN, X_UNSUP };
struct Inst { u16 op, w, sw, pred; int dst, a, b, c, x; int line; };
struct Func;
struct CallInfo { Func* callee = nullptr; int calleeOp = 0; std::vector<int> args; std::vector<u16> w; std::vector<u8> fp; std::vector<u64> byval; std::vector<int> nl; int retLeaves = 0; };
struct Edge { int pc; std::vector<std::pair<int,int>> copies; };
struct GepInfo { i64 off; std::vector<std::tuple<int,i64,unsigned>> idx; };
struct SwInfo { std::vector<std::pair<u64,int>> cases; int def; };
struct Func { std::string name; Function* F; int nregs = 0; std::vector<Inst> code; std::vector<Val> consts; std::vector<int> argReg, argN; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<GepInfo> geps; std::vector<SwInfo> sws;
  bool decoded = false, isDecl = false, symTouched = false, entered = false; int builtin = -1; u64 addr; std::string file; std::vector<std::pair<BasicBlock*,int>> bbpc; };
static Module* M; static const DataLayout* DL;
static std::vector<Func*> g_funcs; static std::unordered_map<Function*, Func*> g_fmap; static std::map<std::string, Func*> g_fname;
static const u64 FBASE = 0x600000000000ull, BABASE = 0x610000000000ull;
static std::vector<BasicBlock*> g_bas; static std::unordered_map<BasicBlock*, u64> g_baIdx;
static std::unordered_map<const GlobalVariable*, u64> g_gaddr;

static u64 strHashDummy;
struct Frame { Func* f; int pc; int retDst; std::vector<Val> r; std::vector<u64> allocas; std::vector<std::pair<Val,bool>> va; };
struct Input { std::string name; Expr* e; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<Expr*> pc; std::shared_ptr<ModelV> model; std::vector<Input> inputs; std::map<std::string,int> nameCnt;
  struct UfApp { std::string fn; Expr *a, *b, *r; }; std::vector<UfApp> ufs;
  u64 icount = 0; u64 stackBytes = 0; bool incomplete = false; u32 forks = 0;
};

// ---------------------------------------------------------------- results
struct Violation { bool soft = false; std::string kind, msg, where; std::vector<std::pair<std::string,u64>> inputs; std::vector<unsigned> widths; };
struct Shm { volatile int active, maxp, stop; volatile u64 viol; };
static Shm* shm;
static std::vector<Violation> g_viol; static std::set<std::string> g_violKeys;
static std::map<std::string,u64> g_cover, g_engineErr, g_exitKinds, g_incomplete;
static u64 g_paths = 0, g_instrs = 0, g_forks = 0, g_asserts = 0, g_assertsSym = 0, g_assertsProved = 0, g_pruned = 0;
static double g_deadline = 0; static u64 g_maxInstr = 60000000; static unsigned g_maxViol = 20;
static std::map<std::string,std::string> g_params;
static std::vector<State*> work;
static bool g_verbose = false;

static std::string jsonEsc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string whereOf(State* s, int n = 8) { std::string r; for (int i = (int)s->st.size() - 1; i >= 0 && n-- > 0; i--) { Frame& f = s->st[i]; int pc = std::max(0, f.pc - (i == (int)s->st.size() - 1 ? 0 : 1)); if (!r.empty()) r += " < "; r += f.f->name + ":" + std::to_string(f.f->code[std::min<size_t>(pc, f.f->code.size() - 1)].line); } return r; }
static void reportViolation(State* s, const std::string& kind, const std::string& msg, const ModelV* m = nullptr, bool soft = false) {
  std::string w = whereOf(s), top = w.substr(0, w.find(" <"));
  std::string key = kind + "|" + msg + "|" + top;
  if (soft) { key += "|soft"; static std::map<std::string,int> nsoft; key += std::to_string(std::min(2, nsoft[key]++)); } else shm->viol++;
  if (g_violKeys.count(key) || g_viol.size() >= g_maxViol) return; g_violKeys.insert(key);
  Violation v; v.soft = soft; v.kind = kind; v.msg = msg; v.where = w; const ModelV& mm = m ? *m : *s->model; evalNewStamp();
  for (auto& i : s->inputs) { v.inputs.push_back({i.name, (u64)evalExpr(i.e, mm)}); v.widths.push_back(i.e->w); }
  if (g_verbose) { fprintf(stderr, "dsx: VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), w.c_str()); for (auto& p : v.inputs) fprintf(stderr, "    %s = 0x%llx\n", p.first.c_str(), (unsigned long long)p.second); }
  g_viol.push_back(v);
}

// ---------------------------------------------------------------- solver glue
static void slice(State* s, Expr* c, std::vector<Expr*>& out) {
  out.clear(); std::vector<bool> used(s->pc.size()); std::set<u32> vars(c->vars->v.begin(), c->vars->v.end()); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : s->pc[i]->vars->v) if (vars.count(v)) { hit = true; break; }
      if (hit) { used[i] = true; for (u32 v : s->pc[i]->vars->v) if (vars.insert(v).second) ch = true; out.push_back(s->pc[i]); } } }
  out.push_back(c);
}
// can c (width 1) be true under the path condition? fills m2 with a full model if so
static Res feasible(State* s, Expr* c, std::shared_ptr<ModelV>& m2) {
  if (c->isC()) { m2 = s->model; return c->c ? SAT : UNSAT; }
  Expr* n = mkNot(c);
  for (Expr* p : s->pc) { if (p == n) { g_ss.synHits++; return UNSAT; } }
  evalNewStamp(); if (evalExpr(c, *s->model)) { g_ss.modelHits++; m2 = s->model; return SAT; }
  std::vector<Expr*> cs; slice(s, c, cs);
  ModelV m(*s->model); Res r = solverCheck(cs, m);
  if (r == SAT) m2 = std::make_shared<ModelV>(std::move(m));
  return r;
}
static void addC(State* s, Expr* c) {
  if (c->isC()) return;
  if (c->op == E_AND && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  for (Expr* p : s->pc) if (p == c) return; s->pc.push_back(c);
}

struct PathEnd {};   // thrown to end the current path
static State* cur;
static std::vector<std::vector<std::pair<std::string,std::pair<unsigned,u64>>>> g_samples; static bool g_endOk;
[[noreturn]] static void endPath(const char* why) { g_exitKinds[why]++; g_endOk = why[0] == 'e' && (why[1] == 'n' ? why[3] == 0 : true); throw PathEnd(); }
[[noreturn]] static void fail(State* s, const std::string& kind, const std::string& msg) { reportViolation(s, kind, msg); endPath("violation"); }
[[noreturn]] static void engineErr(State* s, const std::string& msg) { g_engineErr[msg + " @ " + whereOf(s, 3)]++; endPath("engine-error"); }

static bool assumeE(State* s, Expr* e) { // adds e to the path condition; false: solver gave up
  if (e->isC()) { if (!e->c) { g_pruned++; endPath("assume-false"); } return true; }
  std::shared_ptr<ModelV> m2; Res r = feasible(s, e, m2); if (r == UNSAT) { g_pruned++; endPath("assume-false"); } if (r == UNKNOWN) { g_incomplete["solver unknown at assume"]++; return false; } s->model = m2; addC(s, e); return true; }
// Branch on c: returns the side taken by s; pushes the other side (same pc => re-executes the instruction) when feasible.
static bool uninitCheck(State* s, Expr* c) { if (c->uninit && g_uninit) { reportViolation(s, "uninit", "branch or address depends on uninitialised memory"); return true; } return false; }
static State* forkState(State* s) { State* t = new State(*s); g_forks++; return t; }
// decide(s,c): chooses truth value of c for s; if both feasible forks. The fork re-executes current instruction with the constraint added.
static bool decide(State* s, Expr* c) {
  if (c->isC()) return c->c;
  s->st.back().f->symTouched = true;
  evalNewStamp(); bool v = (bool)evalExpr(c, *s->model);
  Expr* mine = v ? c : mkNot(c); Expr* other = v ? mkNot(c) : c;
  for (Expr* p : s->pc) if (p == mine) { g_ss.synHits++; return v; }
  std::shared_ptr<ModelV> m2; Res r = feasible(s, other, m2);
  if (r == UNSAT) return v; // implied: no constraint needed
  if (r == UNKNOWN) { if (getenv("DSX_DUMP")) fprintf(stderr, "UNKNOWN %s\n", exprStr(other, 8).c_str()); g_incomplete["solver unknown at " + whereOf(s, 2)]++; addC(s, mine); return v; }
  if (uninitCheck(s, c)) endPath("violation");
  State* t = forkState(s); addC(t, other); t->model = m2; work.push_back(t);
  addC(s, mine); return v;
}
static u64 concretize(State* s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  evalNewStamp(); u64 x = (u64)evalExpr(v.e, *s->model);
  Expr* c = mkEq(v.e, mkConst(x, w)); if (!decide(s, c)) abort(); return x;
}

// ---------------------------------------------------------------- decode
static unsigned tyBits(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; return 0; }
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }
static int leaves(Type* t) { if (auto s = dyn_cast<StructType>(t)) { int n = 0; for (auto e : s->elements()) n += leaves(e); return n; } if (auto a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType()); if (t->isVoidTy()) return 0; return 1; }
static void leafTypes(Type* t, u64 off, std::vector<std::pair<Type*,u64>>& out) { if (auto s = dyn_cast<StructType>(t)) { auto L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leafTypes(s->getElementType(i), off + L->getElementOffset(i), out); } else if (auto a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leafTypes(a->getElementType(), off + i * es, out); } else out.push_back({t, off}); }
static u64 baAddr(BasicBlock* b) { auto it = g_baIdx.find(b); if (it == g_baIdx.end()) { g_bas.push_back(b); it = g_baIdx.emplace(b, g_bas.size() - 1).first; } return BABASE + it->second * 16; }
static u128 constVal(Constant* c);
static u128 constExpr(ConstantExpr* ce) {
  switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); u128 b = constVal(cast<Constant>(g->getPointerOperand())); if (!g->accumulateConstantOffset(*DL, off)) { errs() << *ce << "\n"; abort(); } return (u64)(b + off.getSExtValue()); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { u128 v = constVal(ce->getOperand(0)); return v & maskw(tyBits(ce->getType())); }
    case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(tyBits(ce->getType()));
    case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(tyBits(ce->getType()));
    case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(tyBits(ce->getType()));
    case Instruction::ICmp: { u128 a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } }
    default: errs() << "unsupported constexpr " << *ce << "\n"; abort();
  }
}
static u128 constVal(Constant* c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) { const APInt& a = ci->getValue(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
  if (auto cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto f = dyn_cast<Function>(c)) return g_fmap[f]->addr;
  if (auto g = dyn_cast<GlobalVariable>(c)) return g_gaddr.at(g);
  if (auto ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto ba = dyn_cast<BlockAddress>(c)) return baAddr(ba->getBasicBlock());
  if (auto ce = dyn_cast<ConstantExpr>(c)) return constExpr(ce);
  errs() << "unsupported constant " << *c << "\n"; abort();
}
static void constLeaves(Constant* c, Type* t, std::vector<Val>& out) {
  if (!isAgg(t)) { u128 v = constVal(c); unsigned w = tyBits(t); if (w > 64) out.push_back({0, mkConst(v, w)}); else out.push_back(CV((u64)(v & maskw(w ? w : 64)))); return; }
  unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
  for (unsigned i = 0; i < n; i++) { Type* et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType(); Constant* e = c->getAggregateElement(i); constLeaves(e ? e : Constant::getNullValue(et), et, out); }
}
static std::map<std::string,int> g_builtins;
static int builtinId(const std::string& n);
static void decode(Func* f) {
  f->decoded = true; Function* F = f->F; std::unordered_map<Value*,int> reg; std::unordered_map<Value*,int> cidx;
  for (auto& a : F->args()) { reg[&a] = f->nregs; f->argReg.push_back(f->nregs); f->argN.push_back(std::max(1, leaves(a.getType()))); f->nregs += f->argN.back(); }
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) { reg[&I] = f->nregs; f->nregs += std::max(1, leaves(I.getType())); }
  auto opnd = [&](Value* v) -> int { if (auto c = dyn_cast<Constant>(v)) { auto it = cidx.find(v); if (it != cidx.end()) return ~it->second; int i = f->consts.size(); constLeaves(c, v->getType(), f->consts); if ((int)f->consts.size() == i) f->consts.push_back(CV(0)); cidx[v] = i; return ~i; } 
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { f->consts.push_back(CV(0)); return ~(int)(f->consts.size() - 1); }
    return reg.at(v); };
  std::unordered_map<BasicBlock*,int> bbstart; struct Fix { int edge; BasicBlock* to; }; std::vector<Fix> fixes;
  auto edge = [&](BasicBlock* from, BasicBlock* to) -> int { Edge e; e.pc = -1; for (auto& P : to->phis()) { int n = std::max(1, leaves(P.getType())); int s = opnd(P.getIncomingValueForBlock(from)); int d = reg[&P]; for (int i = 0; i < n; i++) e.copies.push_back({d + i, s >= 0 ? s + i : ~(~s + i)}); } f->edges.push_back(e); fixes.push_back({(int)f->edges.size() - 1, to}); return f->edges.size() - 1; };
  int lastLine = F->getSubprogram() ? F->getSubprogram()->getLine() : 0; if (F->getSubprogram() && F->getSubprogram()->getFile()) f->file = F->getSubprogram()->getFile()->getFilename().str();
  for (auto& B : *F) {
    bbstart[&B] = f->code.size(); f->bbpc.push_back({&B, (int)f->code.size()});
    for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      Inst n; memset(&n, 0, sizeof n); if (I.getDebugLoc()) lastLine = I.getDebugLoc().getLine(); n.line = lastLine; n.w = tyBits(I.getType()); n.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
      auto un = [&](u16 op) { n.op = op; n.a = opnd(I.getOperand(0)); n.sw = tyBits(I.getOperand(0)->getType()); };
      auto bin = [&](u16 op) { n.op = op; n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); n.sw = tyBits(I.getOperand(0)->getType()); };
      bool vec = I.getType()->isVectorTy(); for (auto& o : I.operands()) if (o->getType()->isVectorTy()) vec = true;
      if (vec) { n.op = X_UNSUP; f->code.push_back(n); continue; }
      if (I.getType()->isVoidTy()) if (auto* md = dyn_cast_or_null<MDTuple>(I.getMetadata(LLVMContext::MD_annotation))) { bool ai = false; for (auto& op : md->operands()) if (auto ms = dyn_cast<MDString>(op.get())) ai |= ms->getString() == "auto-init"; if (ai) { n.op = X_NOP; f->code.push_back(n); continue; } } // a local starts out uninitialised
      switch (I.getOpcode()) {
        case Instruction::Add: bin(X_ADD); break; case Instruction::Sub: bin(X_SUB); break; case Instruction::Mul: bin(X_MUL); break;
        case Instruction::UDiv: bin(X_UDIV); break; case Instruction::SDiv: bin(X_SDIV); break; case Instruction::URem: bin(X_UREM); break; case Instruction::SRem: bin(X_SREM); break;
        case Instruction::And: bin(X_AND); break; case Instruction::Or: bin(X_OR); break; case Instruction::Xor: bin(X_XOR); break;
        case Instruction::Shl: bin(X_SHL); break; case Instruction::LShr: bin(X_LSHR); break; case Instruction::AShr: bin(X_ASHR); break;
        case Instruction::FAdd: bin(X_FADD); break; case Instruction::FSub: bin(X_FSUB); break; case Instruction::FMul: bin(X_FMUL); break; case Instruction::FDiv: bin(X_FDIV); break; case Instruction::FRem: bin(X_FREM); break;
        case Instruction::FNeg: un(X_FNEG); break;
        case Instruction::ICmp: bin(X_ICMP); n.pred = cast<ICmpInst>(I).getPredicate(); break;
        case Instruction::FCmp: bin(X_FCMP); n.pred = cast<FCmpInst>(I).getPredicate(); break;
        case Instruction::ZExt: un(X_ZEXT); break; case Instruction::SExt: un(X_SEXT); break; case Instruction::Trunc: un(X_TRUNC); break;
        case Instruction::BitCast: case Instruction::Freeze: if (isAgg(I.getType())) { n.op = X_UNSUP; break; } un(X_MOV); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: un(n.w < tyBits(I.getOperand(0)->getType()) ? X_TRUNC : n.w > tyBits(I.getOperand(0)->getType()) ? X_ZEXT : X_MOV); break;
        case Instruction::FPToSI: un(X_FPTOSI); break; case Instruction::FPToUI: un(X_FPTOUI); break; case Instruction::SIToFP: un(X_SITOFP); break; case Instruction::UIToFP: un(X_UITOFP); break;
        case Instruction::FPExt: un(X_FPEXT); if (n.w != 64) n.op = X_UNSUP; break; case Instruction::FPTrunc: un(X_FPTRUNC); if (n.sw != 64) n.op = X_UNSUP; break;
        case Instruction::Select: n.op = X_SELECT; n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); n.c = opnd(I.getOperand(2)); n.x = std::max(1, leaves(I.getType())); break;
        case Instruction::Load: n.a = opnd(I.getOperand(0)); if (isAgg(I.getType())) n.op = X_UNSUP; else { n.op = X_LOAD; n.x = (n.w + 7) / 8; } break;
        case Instruction::Store: n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); n.w = tyBits(I.getOperand(0)->getType()); if (isAgg(I.getOperand(0)->getType())) n.op = X_UNSUP; else { n.op = X_STORE; n.x = (n.w + 7) / 8; } break;
        case Instruction::GetElementPtr: { auto& G = cast<GetElementPtrInst>(I); APInt off(64, 0); n.a = opnd(G.getPointerOperand());
          if (G.accumulateConstantOffset(*DL, off)) { n.op = X_GEPC; f->consts.push_back(CV(off.getSExtValue())); n.b = ~(int)(f->consts.size() - 1); }
          else { n.op = X_GEP; GepInfo gi; gi.off = 0; for (auto it = gep_type_begin(G); it != gep_type_end(G); ++it) { Value* ix = it.getOperand(); if (auto st = it.getStructTypeOrNull()) gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { i64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(ix)) gi.off += sc * ci->getSExtValue(); else gi.idx.push_back({opnd(ix), sc, tyBits(ix->getType())}); } }
            n.x = f->geps.size(); f->geps.push_back(gi); } break; }
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); n.op = X_ALLOCA; n.a = opnd(A.getArraySize()); n.sw = tyBits(A.getArraySize()->getType()); f->consts.push_back(CV(DL->getTypeAllocSize(A.getAllocatedType()))); n.b = ~(int)(f->consts.size() - 1); break; }
        case Instruction::Br: { auto& Br = cast<BranchInst>(I); if (Br.isConditional()) { n.op = X_CBR; n.a = opnd(Br.getCondition()); n.b = edge(&B, Br.getSuccessor(0)); n.c = edge(&B, Br.getSuccessor(1)); } else { n.op = X_BR; n.b = edge(&B, Br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto& S = cast<SwitchInst>(I); n.op = X_SWITCH; n.a = opnd(S.getCondition()); n.sw = tyBits(S.getCondition()->getType()); SwInfo si; si.def = edge(&B, S.getDefaultDest()); std::map<BasicBlock*,int> ed; for (auto& c : S.cases()) { auto* t = c.getCaseSuccessor(); if (!ed.count(t)) ed[t] = edge(&B, t); si.cases.push_back({c.getCaseValue()->getZExtValue(), ed[t]}); } std::sort(si.cases.begin(), si.cases.end()); n.x = f->sws.size(); f->sws.push_back(si); break; }
        case Instruction::IndirectBr: { auto& S = cast<IndirectBrInst>(I); n.op = X_IBR; n.a = opnd(S.getAddress()); SwInfo si; si.def = -1; std::set<BasicBlock*> seen; for (unsigned i = 0; i < S.getNumDestinations(); i++) { auto* t = S.getDestination(i); if (seen.insert(t).second) si.cases.push_back({baAddr(t), edge(&B, t)}); } std::sort(si.cases.begin(), si.cases.end()); n.x = f->sws.size(); f->sws.push_back(si); break; }
        case Instruction::Ret: n.op = X_RET; if (I.getNumOperands()) { n.a = opnd(I.getOperand(0)); n.x = leaves(I.getOperand(0)->getType()); } else n.x = 0; break;
        case Instruction::Unreachable: n.op = X_UNREACH; break;
        case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); int o = 0; Type* t = E.getAggregateOperand()->getType(); for (unsigned ix : E.indices()) { if (auto st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) o += leaves(st->getElementType(j)); t = st->getElementType(ix); } else { auto at = cast<ArrayType>(t); o += ix * leaves(at->getElementType()); t = at->getElementType(); } }
          int s = opnd(E.getAggregateOperand()); n.op = X_MOVN; n.a = s >= 0 ? s + o : ~(~s + o); n.x = std::max(1, leaves(I.getType())); break; }
        case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); int o = 0; Type* t = E.getAggregateOperand()->getType(); for (unsigned ix : E.indices()) { if (auto st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) o += leaves(st->getElementType(j)); t = st->getElementType(ix); } else { auto at = cast<ArrayType>(t); o += ix * leaves(at->getElementType()); t = at->getElementType(); } }
          n.op = X_MOVN; n.a = opnd(E.getAggregateOperand()); n.x = std::max(1, leaves(I.getType())); f->code.push_back(n);
          n.a = opnd(E.getInsertedValueOperand()); n.dst += o; n.x = std::max(1, leaves(t)); break; }
        case Instruction::Call: { auto& Cl = cast<CallInst>(I); if (auto* II = dyn_cast<IntrinsicInst>(&Cl)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) { continue; } }
          if (Cl.isInlineAsm()) { n.op = X_UNSUP; break; }
          n.op = X_CALL; CallInfo ci; Value* cv = Cl.getCalledOperand()->stripPointerCasts(); if (auto* cf = dyn_cast<Function>(cv)) ci.callee = g_fmap[cf]; ci.calleeOp = opnd(Cl.getCalledOperand());
          for (unsigned i = 0; i < Cl.arg_size(); i++) { Value* a = Cl.getArgOperand(i); ci.args.push_back(opnd(a)); ci.w.push_back(tyBits(a->getType())); ci.nl.push_back(std::max(1, leaves(a->getType()))); ci.fp.push_back(a->getType()->isFloatingPointTy()); ci.byval.push_back(Cl.isByValArgument(i) ? (u64)DL->getTypeAllocSize(Cl.getParamByValType(i)) : 0); }
          ci.retLeaves = leaves(I.getType()); n.x = f->calls.size(); f->calls.push_back(ci);
          if (ci.callee && ci.callee->isDecl) { n.op = X_INTRIN; n.b = ci.callee->builtin; }
          break; }
        default: n.op = X_UNSUP;
      }
      f->code.push_back(n);
    }
  }
  for (auto& x : fixes) f->edges[x.edge].pc = bbstart[x.to];
}

// ---------------------------------------------------------------- execution helpers
static inline const Val& R(Frame& f, int o) { return o >= 0 ? f.r[o] : f.f->consts[~o]; }
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

// Resolve an address for an access of nb bytes. Returns object and concrete offset, or symbolic offset expr.
struct Loc { Obj* o; u64 off; Expr* offE; };
static std::string descr(State* s, u64 a, u64 nb) {
  if (a < 4096) return "null pointer access";
  Obj* o = s->mem.find(a); if (!o) return "wild pointer access";
  if (o->freed) return std::string("use after free (object of ") + std::to_string(o->size) + " bytes from " + (o->site ? o->site : "?") + ")";
  return std::string("out of bounds access: ") + std::to_string(nb) + " byte(s) at offset " + std::to_string((i64)(a - o->base)) + " of " + std::to_string(o->size) + "-byte " + (o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global") + " object from " + (o->site ? o->site : "?");
}
static u64 ubOf(Expr* e, unsigned d = 0) { // an upper bound that can be read off the expression
  u64 m = e->w >= 64 ? ~0ull : ((1ull << e->w) - 1); if (e->isC()) return (u64)e->c; if (e->w > 64 || d > 12) return m;
  switch (e->op) {
    case E_ZEXT: return ubOf(e->k[0], d + 1);
    case E_EXTRACT: return e->aux == 0 && e->k[0]->w <= 64 ? std::min(m, ubOf(e->k[0], d + 1)) : m;
    case E_AND: return std::min(ubOf(e->k[0], d + 1), ubOf(e->k[1], d + 1));
    case E_ITE: return std::max(ubOf(e->k[1], d + 1), ubOf(e->k[2], d + 1));
    case E_CONCAT: { if (e->k[0]->w > 64 || e->k[1]->w > 64) return m; u64 h = ubOf(e->k[0], d + 1); return e->k[1]->w >= 64 ? m : (h << e->k[1]->w) | ubOf(e->k[1], d + 1); }
    case E_OR: case E_XOR: { u64 x = ubOf(e->k[0], d + 1) | ubOf(e->k[1], d + 1); while (x & (x + 1)) x |= x >> 1; return std::min(m, x); }
    case E_ADD: { unsigned __int128 t = (unsigned __int128)ubOf(e->k[0], d + 1) + ubOf(e->k[1], d + 1); return t > m ? m : (u64)t; }
    case E_MUL: { unsigned __int128 t = (unsigned __int128)ubOf(e->k[0], d + 1) * ubOf(e->k[1], d + 1); return t > m ? m : (u64)t; }
    case E_LSHR: return e->k[1]->isC() ? (e->k[1]->c >= 64 ? 0 : ubOf(e->k[0], d + 1) >> (unsigned)e->k[1]->c) : m;
    case E_SHL: { if (!e->k[1]->isC() || e->k[1]->c >= 64) return m; unsigned __int128 t = (unsigned __int128)ubOf(e->k[0], d + 1) << (unsigned)e->k[1]->c; return t > m ? m : (u64)t; }
    case E_UREM: return e->k[1]->isC() && e->k[1]->c ? std::min((u64)e->k[1]->c - 1, ubOf(e->k[0], d + 1)) : m;
  }
  return m;
}
static inline Loc resolve(State* s, const Val& p, u64 nb, bool wr, bool allowSym = true) {
  if (!p.e) {
    Obj* o = s->mem.find(p.c);
    if (!o || o->freed || p.c < o->base || p.c + nb > o->base + o->size || p.c + nb < p.c) { if (nb == 0 && (!o || p.c == 0)) return {nullptr, 0, nullptr}; if (nb == 0 && o && !o->freed) return {o, 0, nullptr}; fail(s, "memory", descr(s, p.c, nb)); }
    if (wr && o->ro) fail(s, "memory", "write to constant object");
    return {o, p.c - o->base, nullptr};
  }
  s->st.back().f->symTouched = true;
  evalNewStamp(); u64 a = (u64)evalExpr(p.e, *s->model);
  Obj* o = s->mem.find(a);
  bool ok = o && !o->freed && a >= o->base && a + nb <= o->base + o->size && a + nb >= a && !(wr && o->ro);
  if (p.e->uninit && g_uninit) { std::shared_ptr<ModelV> m2; if (feasible(s, mkNot(mkEq(p.e, mkConst(a, 64))), m2) != UNSAT) { uninitCheck(s, p.e); endPath("violation"); } }
  if (!ok) {
    // the model's address is bad: report, but also explore the remaining addresses
    Expr* ne = mkNot(mkEq(p.e, mkConst(a, 64))); std::shared_ptr<ModelV> m2;
    (void)ne; (void)m2;
    fail(s, "memory", descr(s, a, nb)); }
  Expr* off = mk(E_SUB, 64, p.e, mkConst(o->base, 64));
  Expr* inb = mk(E_ULE, 1, off, mkConst(o->size - nb, 64));
  u64 base = o->base;
  if (ubOf(off) > o->size - nb && !decide(s, inb)) abort();
  o = s->mem.find(base);
  if (off->isC()) return {o, (u64)off->c, nullptr};
  if (!allowSym) { u64 c = concretize(s, fromE(off), 64); return {o, c, nullptr}; }
  return {o, 0, off};
}
static unsigned tzOf(Expr* e, unsigned d = 0) { // known trailing zero bits
  if (e->isC()) { if (!e->c) return 64; unsigned n = 0; u128 t = e->c; while (!(t & 1)) { t >>= 1; n++; } return n; }
  if (d > 6) return 0;
  switch (e->op) { case E_ADD: case E_SUB: return std::min(tzOf(e->k[0], d + 1), tzOf(e->k[1], d + 1)); case E_MUL: return std::min(64u, tzOf(e->k[0], d + 1) + tzOf(e->k[1], d + 1));
    case E_CONCAT: { unsigned t = tzOf(e->k[1], d + 1); if (t >= e->k[1]->w) return e->k[1]->w + tzOf(e->k[0], d + 1); return t; } case E_ITE: return std::min(tzOf(e->k[1], d + 1), tzOf(e->k[2], d + 1)); case E_ZEXT: case E_SEXT: return tzOf(e->k[0], d + 1); case E_AND: return std::max(tzOf(e->k[0], d + 1), tzOf(e->k[1], d + 1)); }
  return 0;
}
// enumerate feasible values of e (up to max); returns false if more
static bool enumVals(State* s, Expr* e, unsigned max, std::vector<u64>& out) {
  std::vector<Expr*> cs; slice(s, e, cs); cs.pop_back();
  evalNewStamp(); out.push_back((u64)evalExpr(e, *s->model));
  cs.push_back(mkNot(mkEq(e, mkConst(out[0], e->w))));
  while (true) { ModelV m(*s->model); Res r = solverCheck(cs, m); if (r == UNSAT) return true; if (r == UNKNOWN) return false; evalNewStamp(); u64 v = (u64)evalExpr(e, m); out.push_back(v); if (out.size() > max) return false; cs.push_back(mkNot(mkEq(e, mkConst(v, e->w)))); }
}
static Val loadMem(State* s, const Val& p, unsigned w) {
  unsigned nb = (w + 7) / 8; Loc l = resolve(s, p, nb, false); Val v;
  if (!l.offE) v = memRead(l.o, l.off, nb);
  else {
    std::vector<u64> offs; unsigned tz = std::min(tzOf(l.offE), 16u); u64 step = (u64)1 << tz; u64 n = (l.o->size - nb) / step + 1;
    bool all = false;
    u64 ub = ubOf(l.offE); if (ub < l.o->size - nb) { n = ub / step + 1; if (n <= 64) { for (u64 q = 0; q <= ub; q += step) offs.push_back(q); n = 1; } }
    if (n > 16) { std::vector<u64> t; if (enumVals(s, l.offE, 16, t)) { offs = t; all = true; } }
    if (!all && offs.empty()) { if (n > 4096) { u64 c = concretize(s, fromE(l.offE), 64); Loc l2 = {s->mem.find(l.o->base), c, nullptr}; return memRead(l2.o, c, nb); } for (u64 q = 0; q + nb <= l.o->size; q += step) offs.push_back(q); }
    std::sort(offs.begin(), offs.end());
    // group equal constants
    std::map<std::pair<u64,Expr*>, Expr*> groups; std::vector<std::pair<u64,Expr*>> order; unsigned W = nb * 8;
    for (u64 q : offs) { Val x = memRead(l.o, q, nb); if (x.e && x.e->uninit && !all) { std::shared_ptr<ModelV> m2; if (feasible(s, mkEq(l.offE, mkConst(q, 64)), m2) == UNSAT) continue; } auto key = std::make_pair(x.c, x.e); Expr* c = mkEq(l.offE, mkConst(q, 64)); auto it = groups.find(key); if (it == groups.end()) { groups[key] = c; order.push_back(key); } else it->second = mk(E_OR, 1, it->second, c); }
    Expr* r = nullptr; for (size_t i = order.size(); i-- > 0;) { Expr* x = order[i].second ? order[i].second : mkConst(order[i].first, W); r = r ? mkIte(groups[order[i]], x, r) : x; }
    v = fromE(r);
  }
  if (w != nb * 8) { if (v.e) v = fromE(mkExtract(v.e, 0, w)); else v.c &= (u64)maskw(w); }
  return v;
}
static void storeMem(State* s, const Val& p, unsigned w, const Val& v) {
  unsigned nb = (w + 7) / 8; Loc l = resolve(s, p, nb, true);
  if (!l.offE) { Obj* o = s->mem.findW(l.o->base); memWrite(o, l.off, nb, v); return; }
  std::vector<u64> offs; 
  if (enumVals(s, l.offE, 12, offs)) {
    Obj* o = s->mem.findW(l.o->base); unsigned W = nb * 8; Expr* ve = toE(v, w); if (w != W) ve = mkZext(ve, W);
    for (u64 q : offs) { Val old = memRead(o, q, nb); memWrite(o, q, nb, fromE(mkIte(mkEq(l.offE, mkConst(q, 64)), ve, toE(old, W)))); }
  } else { u64 base = l.o->base; u64 c = concretize(s, fromE(l.offE), 64); memWrite(s->mem.findW(base), c, nb, v); }
}
static void copyMem(State* s, u64 d, u64 sr, u64 n) {
  if (!n) return; Loc a = resolve(s, CV(sr), n, false), b = resolve(s, CV(d), n, true); Obj* so = a.o; Obj* o = s->mem.findW(b.o->base); if (so->base == o->base) so = o;
  // gather then scatter (handles overlap)
  std::vector<u8> dat(n); std::vector<Expr*> sy; std::vector<u8> un;
  for (u64 i = 0; i < n;) { u64 q = a.off + i; Page* g = so->pages[q / PG]; u32 r = q % PG; u64 m = std::min<u64>(n - i, g->n - r); memcpy(&dat[i], g->data + r, m);
    if (g->sym) { if (sy.empty()) sy.resize(n); memcpy(&sy[i], g->sym + r, m * sizeof(Expr*)); } if (g->un) { if (un.empty()) un.resize(n); memcpy(&un[i], g->un + r, m); } i += m; }
  for (u64 i = 0; i < n;) { u64 q = b.off + i; Page* g = Mem::wpage(o, q / PG); u32 r = q % PG; u64 m = std::min<u64>(n - i, g->n - r); memcpy(g->data + r, &dat[i], m);
    if (!sy.empty()) { bool any = false; for (u64 j = 0; j < m; j++) any |= sy[i + j] != nullptr; if (any && !g->sym) g->sym = (Expr**)calloc(g->n, sizeof(Expr*)); if (g->sym) memcpy(g->sym + r, &sy[i], m * sizeof(Expr*)); } else if (g->sym) memset(g->sym + r, 0, m * sizeof(Expr*));
    if (!un.empty()) { if (!g->un) g->un = (u8*)calloc(g->n, 1); memcpy(g->un + r, &un[i], m); } else if (g->un) memset(g->un + r, 0, m); i += m; }
}
static std::string readCStr(State* s, const Val& p, u64 max = 4096) { std::string r; if (p.e) return "<sym>"; if (!p.c) return ""; for (u64 i = 0; i < max; i++) { Loc l = resolve(s, CV(p.c + i), 1, false); Val v = memRead(l.o, l.off, 1); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }
static void freeHeap(State* s, const Val& pv, const char* who) {
  u64 p = concretize(s, pv, 64); if (!p) return; Obj* o = s->mem.find(p);
  if (!o || o->kind != K_HEAP || p != o->base) { if (o && o->freed && p == o->base) fail(s, "memory", "double free"); fail(s, "memory", std::string("invalid ") + who + " of non-heap pointer"); }
  if (o->freed) fail(s, "memory", "double free");
  o = s->mem.findW(p); o->freed = true; for (auto g : o->pages) pgRel(g); o->pages.clear(); s->mem.heapObjs--; s->mem.heapBytes -= o->size;
}

static Val doBin(u16 op, unsigned w, const Val& a, const Val& b) {
  static const u8 map[] = {E_ADD,E_SUB,E_MUL,E_UDIV,E_SDIV,E_UREM,E_SREM,E_AND,E_OR,E_XOR,E_SHL,E_LSHR,E_ASHR,E_FADD,E_FSUB,E_FMUL,E_FDIV};
  if (!a.e && !b.e && w <= 64) {
    u64 m = w == 64 ? ~0ull : ((1ull << w) - 1);
    switch (op) { case X_ADD: return CV((a.c + b.c) & m); case X_SUB: return CV((a.c - b.c) & m); case X_MUL: return CV((a.c * b.c) & m); case X_AND: return CV(a.c & b.c); case X_OR: return CV(a.c | b.c); case X_XOR: return CV(a.c ^ b.c);
      default: return CV((u64)foldOp(map[op], w, 0, a.c, b.c, 0, w, w)); }
  }
  return fromE(mk(map[op], w, toE(a, w), toE(b, w)));
}
static Val doIcmp(unsigned pred, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) { u64 x = a.c, y = b.c; i64 sx = (i64)sextv(x, w), sy = (i64)sextv(y, w); bool r;
    switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; } return CV(r); }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (pred) { case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return fromE(mk(E_ULT, 1, y, x)); case CmpInst::ICMP_UGE: return fromE(mk(E_ULE, 1, y, x)); case CmpInst::ICMP_ULT: return fromE(mk(E_ULT, 1, x, y)); case CmpInst::ICMP_ULE: return fromE(mk(E_ULE, 1, x, y));
    case CmpInst::ICMP_SGT: return fromE(mk(E_SLT, 1, y, x)); case CmpInst::ICMP_SGE: return fromE(mk(E_SLE, 1, y, x)); case CmpInst::ICMP_SLT: return fromE(mk(E_SLT, 1, x, y)); default: return fromE(mk(E_SLE, 1, x, y)); }
}
static Val doFcmp(unsigned pred, unsigned w, const Val& a, const Val& b) {
  Expr *x = toE(a, w), *y = toE(b, w); Expr* r; auto N = mkNot;
  auto uno = [&]() { return mk(E_OR, 1, mk(E_FISNAN, 1, x), mk(E_FISNAN, 1, y)); };
  switch (pred) { case CmpInst::FCMP_FALSE: return CV(0); case CmpInst::FCMP_TRUE: return CV(1);
    case CmpInst::FCMP_OEQ: r = mk(E_FEQ, 1, x, y); break; case CmpInst::FCMP_UNE: r = N(mk(E_FEQ, 1, x, y)); break;
    case CmpInst::FCMP_OGT: r = mk(E_FLT, 1, y, x); break; case CmpInst::FCMP_OGE: r = mk(E_FLE, 1, y, x); break; case CmpInst::FCMP_OLT: r = mk(E_FLT, 1, x, y); break; case CmpInst::FCMP_OLE: r = mk(E_FLE, 1, x, y); break;
    case CmpInst::FCMP_ULE: r = N(mk(E_FLT, 1, y, x)); break; case CmpInst::FCMP_ULT: r = N(mk(E_FLE, 1, y, x)); break; case CmpInst::FCMP_UGE: r = N(mk(E_FLT, 1, x, y)); break; case CmpInst::FCMP_UGT: r = N(mk(E_FLE, 1, x, y)); break;
    case CmpInst::FCMP_ORD: r = N(uno()); break; case CmpInst::FCMP_UNO: r = uno(); break;
    case CmpInst::FCMP_ONE: r = mk(E_OR, 1, mk(E_FLT, 1, x, y), mk(E_FLT, 1, y, x)); break; default: r = mk(E_OR, 1, uno(), mk(E_FEQ, 1, x, y)); break; }
  return fromE(r);
}
static Val doFptoi(unsigned w, unsigned sw, const Val& a, bool sgn) { // gcc/x86-64 behaviour
  Expr* x = toE(a, sw);
  unsigned cw = (w == 64 || (!sgn && w == 32)) ? 64 : 32;
  if (!sgn && w == 64) { if (!a.e) { double d = sw == 64 ? bits2d(a.c) : bits2f(a.c); if (d >= 9223372036854775808.0) return CV((u64)foldOp(E_FPTOSI, 64, 0, d2bits(d - 9223372036854775808.0), 0, 0, 64, 0) ^ 0x8000000000000000ull); }
    else { Expr* k = mkConst(d2bits(9223372036854775808.0), 64); if (sw != 64) x = mk(E_FPEXT, 64, x); Expr* lo = mk(E_FPTOSI, 64, x); Expr* hi = mk(E_XOR, 64, mk(E_FPTOSI, 64, mk(E_FSUB, 64, x, k)), mkConst((u128)1 << 63, 64)); return fromE(mkIte(mk(E_FLT, 1, x, k), lo, hi)); } }
  Expr* r = mk(E_FPTOSI, cw, x); return fromE(mkExtract(r, 0, w));
}
static void jump(Frame& f, int e) { Edge& E = f.f->edges[e]; size_t n = E.copies.size(); if (n == 1) f.r[E.copies[0].first] = R(f, E.copies[0].second); else if (n) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = R(f, E.copies[i].second); for (size_t i = 0; i < n; i++) f.r[E.copies[i].first] = t[i]; } f.pc = E.pc; }

static void pushFrame(State* s, Func* f, std::vector<Val>& args, std::vector<std::pair<Val,bool>>&& va, int retDst) {
  if (!f->decoded) decode(f); f->entered = true;
  if (s->st.size() > 20000) fail(s, "stack-overflow", "unbounded recursion");
  s->st.emplace_back(); Frame& n = s->st.back(); n.f = f; n.pc = 0; n.retDst = retDst; n.r.resize(f->nregs, CV(0)); n.va = std::move(va);
  for (size_t i = 0, k = 0; i < f->argReg.size(); i++) { int nl = f->argN[i]; for (int j = 0; j < nl; j++) n.r[f->argReg[i] + j] = k < args.size() ? args[k++] : CV(0); }
}
#include "builtins.inc"

static void doCall(State* s, Inst& I, Frame& fr) {
  CallInfo& ci = fr.f->calls[I.x]; Func* callee = ci.callee;
  if (!callee) { u64 a = concretize(s, R(fr, ci.calleeOp), 64); if (a < FBASE || (a - FBASE) / 16 >= g_funcs.size()) fail(s, "memory", "call through invalid function pointer " + (a < 4096 ? std::string("(null)") : std::string(""))); callee = g_funcs[(a - FBASE) / 16]; if (callee->isDecl) { doBuiltin(s, I, s->st.back(), callee); return; } }
  static std::vector<Val> args; args.clear(); std::vector<std::pair<Val,bool>> va; size_t np = callee->F->arg_size(); std::vector<u64> bvs;
  for (size_t i = 0; i < ci.args.size(); i++) {
    int o = ci.args[i]; Val v = R(fr, o);
    if (ci.byval[i]) { u64 src = concretize(s, v, 64); resolve(s, CV(src), ci.byval[i], false); u64 d = s->mem.alloc(ci.byval[i], K_STACK, "byval", false, false); copyMem(s, d, src, ci.byval[i]); bvs.push_back(d); v = CV(d); }
    if (i < np) { args.push_back(v); for (int j = 1; j < ci.nl[i]; j++) args.push_back(R(fr, o >= 0 ? o + j : ~(~o + j))); }
    else { if (ci.w[i] < 64 && !ci.fp[i] && v.e) v = fromE(mkZext(v.e, 64)); va.push_back({v, (bool)ci.fp[i]}); }
  }
  fr.pc++; pushFrame(s, callee, args, std::move(va), I.dst); for (u64 b : bvs) s->st.back().allocas.push_back(b);
}

static void step(State* s) { // run until path ends (throws)
  for (;;) {
    Frame* fp = &s->st.back();
    Inst& I = fp->f->code[fp->pc]; Frame& f = *fp;
    if (++s->icount > g_maxInstr) fail(s, "hang", "instruction budget exceeded (possible non-termination)");
    g_instrs++;
    if ((g_instrs & 0xfffff) == 0 && (nowSecs() > g_deadline || shm->stop)) { g_incomplete["deadline"]++; endPath("deadline"); }
    switch (I.op) {
      case X_UDIV: case X_SDIV: case X_UREM: case X_SREM: { const Val& b = R(f, I.b); if (b.e) { if (decide(s, mkEq(b.e, mkConst(0, I.w)))) fail(s, "div-by-zero", "integer division by zero"); } else if (!b.c) fail(s, "div-by-zero", "integer division by zero"); } // fallthrough
      case X_ADD: case X_SUB: case X_MUL: case X_AND: case X_OR: case X_XOR: case X_SHL: case X_LSHR: case X_ASHR: case X_FADD: case X_FSUB: case X_FMUL: case X_FDIV:
        { Frame& g = s->st.back(); g.r[I.dst] = doBin(I.op, I.w, R(g, I.a), R(g, I.b)); g.pc++; break; }
      case X_FREM: f.r[I.dst] = mathFn(s, "fmod", R(f, I.a), R(f, I.b)); f.pc++; break;
      case X_FNEG: { const Val& a = R(f, I.a); f.r[I.dst] = doBin(X_XOR, I.w, a, CV(1ull << (I.w - 1))); f.pc++; break; }
      case X_ICMP: f.r[I.dst] = doIcmp(I.pred, I.sw, R(f, I.a), R(f, I.b)); f.pc++; break;
      case X_FCMP: f.r[I.dst] = doFcmp(I.pred, I.sw, R(f, I.a), R(f, I.b)); f.pc++; break;
      case X_ZEXT: { const Val& a = R(f, I.a); if (!a.e && I.w <= 64) f.r[I.dst] = a; else f.r[I.dst] = fromE(mkZext(toE(a, I.sw), I.w)); f.pc++; break; }
      case X_SEXT: { const Val& a = R(f, I.a); if (!a.e && I.w <= 64) f.r[I.dst] = CV((u64)((u128)sextv(a.c, I.sw) & maskw(I.w))); else f.r[I.dst] = fromE(mkSext(toE(a, I.sw), I.w)); f.pc++; break; }
      case X_TRUNC: { const Val& a = R(f, I.a); if (!a.e) f.r[I.dst] = CV(a.c & (u64)maskw(I.w)); else f.r[I.dst] = fromE(mkExtract(a.e, 0, I.w)); f.pc++; break; }
      case X_MOV: f.r[I.dst] = R(f, I.a); f.pc++; break;
      case X_MOVN: { Val t[32]; for (int i = 0; i < I.x; i++) t[i] = R(f, I.a >= 0 ? I.a + i : ~(~I.a + i)); for (int i = 0; i < I.x; i++) f.r[I.dst + i] = t[i]; f.pc++; break; }
      case X_FPTOSI: f.r[I.dst] = doFptoi(I.w, I.sw, R(f, I.a), true); f.pc++; break;
      case X_FPTOUI: f.r[I.dst] = doFptoi(I.w, I.sw, R(f, I.a), false); f.pc++; break;
      case X_SITOFP: { Expr* x = toE(R(f, I.a), I.sw); if (I.sw < 64) x = mkSext(x, 64); f.r[I.dst] = fromE(mk(E_SITOFP, I.w, x)); f.pc++; break; }
      case X_UITOFP: { Expr* x = toE(R(f, I.a), I.sw); f.r[I.dst] = fromE(mk(E_UITOFP, I.w, x)); f.pc++; break; }
      case X_FPEXT: f.r[I.dst] = fromE(mk(E_FPEXT, I.w, toE(R(f, I.a), I.sw))); f.pc++; break;
      case X_FPTRUNC: f.r[I.dst] = fromE(mk(E_FPTRUNC, I.w, toE(R(f, I.a), I.sw))); f.pc++; break;
      case X_SELECT: { const Val& c = R(f, I.a);
        if (I.x == 1) { Val b = R(f, I.b), d = R(f, I.c); if (!c.e) f.r[I.dst] = c.c ? b : d; else f.r[I.dst] = fromE(mkIte(c.e, toE(b, I.w), toE(d, I.w))); }
        else { bool t = decide(s, toE(c, 1)); int src = t ? I.b : I.c; for (int i = 0; i < I.x; i++) f.r[I.dst + i] = R(f, src >= 0 ? src + i : ~(~src + i)); }
        f.pc++; break; }
      case X_LOAD: { const Val& p = R(f, I.a);
        if (!p.e) { Obj* o = s->mem.find(p.c); unsigned nb = I.x; if (o && !o->freed && p.c >= o->base && p.c + nb <= o->base + o->size) { u64 off = p.c - o->base; Page* pg = o->pages[off / PG]; u32 po = off % PG; if (!pg->sym && !pg->un && po + nb <= pg->n && nb <= 8) { u64 v = 0; memcpy(&v, pg->data + po, nb); if (I.w != nb * 8) v &= (u64)maskw(I.w); f.r[I.dst] = CV(v); f.pc++; break; } } }
        f.r[I.dst] = loadMem(s, p, I.w); f.pc++; break; }
      case X_STORE: storeMem(s, R(f, I.b), I.w, R(f, I.a)); f.pc++; break;
      case X_GEPC: f.r[I.dst] = doBin(X_ADD, 64, R(f, I.a), R(f, I.b)); f.pc++; break;
      case X_GEP: { GepInfo& g = f.f->geps[I.x]; Val v = R(f, I.a); if (g.off) v = doBin(X_ADD, 64, v, CV(g.off));
        for (auto& [op, sc, w] : g.idx) { Val ix = R(f, op); if (w < 64) { if (ix.e) ix = fromE(mkSext(ix.e, 64)); else ix = CV((u64)sextv(ix.c, w)); } if (sc != 1) ix = doBin(X_MUL, 64, ix, CV(sc)); v = doBin(X_ADD, 64, v, ix); }
        f.r[I.dst] = v; f.pc++; break; }
      case X_ALLOCA: { u64 n = concretize(s, R(f, I.a), I.sw); i64 sn = (i64)sextv(n, I.sw); u64 es = R(f, I.b).c; if (sn < 0 || (u128)n * es > (8u << 20)) fail(s, "stack-overflow", "variable length array of invalid or huge size"); u64 a = s->mem.alloc(n * es, K_STACK, f.f->name.c_str(), false, g_uninit); f.allocas.push_back(a); s->stackBytes += n * es; if (s->stackBytes > (8u << 20)) fail(s, "stack-overflow", "stack exhausted"); f.r[I.dst] = CV(a); f.pc++; break; }
      case X_BR: jump(f, I.b); break;
      case X_CBR: { const Val& c = R(f, I.a); bool t = c.e ? decide(s, c.e) : c.c; Frame& g = s->st.back(); jump(g, t ? I.b : I.c); break; }
      case X_SWITCH: { SwInfo& w = f.f->sws[I.x]; const Val& c = R(f, I.a);
        if (!c.e) { auto it = std::lower_bound(w.cases.begin(), w.cases.end(), std::make_pair(c.c, INT32_MIN)); jump(f, it != w.cases.end() && it->first == c.c ? it->second : w.def); break; }
        evalNewStamp(); u64 v = (u64)evalExpr(c.e, *s->model); int target = w.def; for (auto& p : w.cases) if (p.first == v) target = p.second;
        Expr* cond = mkConst(target == w.def ? 1 : 0, 1);
        if (target == w.def) { for (auto& p : w.cases) if (p.second != target) cond = mk(E_AND, 1, cond, mkNot(mkEq(c.e, mkConst(p.first, I.sw)))); } else for (auto& p : w.cases) if (p.second == target) cond = mk(E_OR, 1, cond, mkEq(c.e, mkConst(p.first, I.sw)));
        if (!decide(s, cond)) abort(); jump(s->st.back(), target); break; }
      case X_IBR: { u64 a = concretize(s, R(f, I.a), 64); SwInfo& w = f.f->sws[I.x]; auto it = std::lower_bound(w.cases.begin(), w.cases.end(), std::make_pair(a, INT32_MIN)); if (it == w.cases.end() || it->first != a) fail(s, "memory", "indirect branch to invalid target"); jump(f, it->second); break; }
      case X_RET: { Val t[16]; int n = I.x; for (int i = 0; i < n; i++) t[i] = R(f, I.a >= 0 ? I.a + i : ~(~I.a + i)); int d = f.retDst;
        for (u64 a : f.allocas) { Obj* o = s->mem.findW(a); o->freed = true; s->stackBytes -= std::min(s->stackBytes, o->size); for (auto g : o->pages) pgRel(g); o->pages.clear(); }
        s->st.pop_back(); if (s->st.empty()) endPath("end"); if (d >= 0) for (int i = 0; i < n; i++) s->st.back().r[d + i] = t[i]; break; }
      case X_CALL: doCall(s, I, f); break;
      case X_INTRIN: doBuiltin(s, I, f, f.f->calls[I.x].callee); break;
      case X_UNREACH: fail(s, "unreachable", "reached code marked unreachable (undefined behaviour)");
      case X_NOP: f.pc++; break;
      default: engineErr(s, "unsupported instruction");
    }
  }
}

static std::string g_outdir;
static void dumpResults() {
  std::string path = g_outdir + "/r." + std::to_string(getpid()) + ".json"; FILE* o = fopen(path.c_str(), "w"); if (!o) { perror("dump"); return; }
  fprintf(o, "{\"paths\":%llu,\"instrs\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"asserts_proved\":%llu,\"pruned\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"modelhits\":%llu,\"synhits\":%llu,\"solver_s\":%.3f,\"exprs\":%zu,\n",
    (unsigned long long)g_paths, (unsigned long long)g_instrs, (unsigned long long)g_forks, (unsigned long long)g_asserts, (unsigned long long)g_assertsSym, (unsigned long long)g_assertsProved, (unsigned long long)g_pruned, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.synHits, g_ss.secs, exprCount());
  auto dm = [&](const char* n, std::map<std::string,u64>& m) { fprintf(o, "\"%s\":{", n); bool first = true; for (auto& p : m) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(o, "},\n"); };
  dm("cover", g_cover); dm("engine_errors", g_engineErr); dm("exits", g_exitKinds); dm("incomplete", g_incomplete);
  fprintf(o, "\"functions\":["); bool first = true; for (auto f : g_funcs) if (f->symTouched) { fprintf(o, "%s\"%s\"", first ? "" : ",", f->name.c_str()); first = false; } fprintf(o, "],\n");
  int ne = 0; for (auto f : g_funcs) if (f->entered) ne++; fprintf(o, "\"functions_entered\":%d,\n", ne);
  fprintf(o, "\"samples\":["); for (size_t k = 0; k < g_samples.size(); k++) { fprintf(o, "%s[", k ? "," : ""); for (size_t i = 0; i < g_samples[k].size(); i++) fprintf(o, "%s[\"%s\",%u,\"%llx\"]", i ? "," : "", jsonEsc(g_samples[k][i].first).c_str(), g_samples[k][i].second.first, (unsigned long long)g_samples[k][i].second.second); fprintf(o, "]"); } fprintf(o, "],\n");
  fprintf(o, "\"violations\":["); first = true;
  for (auto& v : g_viol) { fprintf(o, "%s{\"soft\":%d,\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":[", first ? "" : ",\n", (int)v.soft, jsonEsc(v.kind).c_str(), jsonEsc(v.msg).c_str(), jsonEsc(v.where).c_str()); for (size_t i = 0; i < v.inputs.size(); i++) fprintf(o, "%s[\"%s\",%u,\"%llx\"]", i ? "," : "", jsonEsc(v.inputs[i].first).c_str(), v.widths[i], (unsigned long long)v.inputs[i].second); fprintf(o, "]}"); first = false; }
  fprintf(o, "]}\n"); fclose(o);
}
static void resetStats() { g_samples.clear(); g_viol.clear(); g_violKeys.clear(); g_cover.clear(); g_engineErr.clear(); g_exitKinds.clear(); g_incomplete.clear(); g_paths = g_instrs = g_forks = g_asserts = g_assertsSym = g_assertsProved = g_pruned = 0; g_ss = SolverStats(); }

int main(int argc, char** argv) {
  std::vector<std::string> wraps; std::string bc, entry = "harness"; int maxp = 1; double tmo = 600; g_outdir = ".";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--wrap") wraps.push_back(nxt()); else if (a == "--entry") entry = nxt(); else if (a == "--jobs") maxp = atoi(nxt().c_str()); else if (a == "--timeout") tmo = atof(nxt().c_str()); else if (a == "--out") g_outdir = nxt(); else if (a == "--max-instr") g_maxInstr = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--param") { std::string p = nxt(); size_t e = p.find('='); g_params[p.substr(0, e)] = p.substr(e + 1); } else if (a == "--no-uninit") g_uninit = false; else if (a == "-v") g_verbose = true; else if (a == "--solver-ms") g_solverTimeoutMs = atoi(nxt().c_str()); else bc = a; }
  shm = (Shm*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); shm->active = 1; shm->maxp = maxp; shm->stop = 0; shm->viol = 0;
  prctl(PR_SET_CHILD_SUBREAPER, 1); pid_t root = getpid(); g_deadline = nowSecs() + tmo; alarm((unsigned)tmo + 40); // a worker stuck in the solver does not outlive the run
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("dsx", errs()); return 3; } M = mod.get(); DL = &M->getDataLayout();
  initBuiltins();
  for (auto& w : wraps) { Function* o = M->getFunction(w); Function* n = M->getFunction("wrap_" + w); if (!o || !n || o->isDeclaration()) { fprintf(stderr, "dsx: cannot wrap %s\n", w.c_str()); return 3; } o->replaceAllUsesWith(n); }
  for (auto& F : *M) if (F.isDeclaration() && F.getName().starts_with("real_")) { Function* o = M->getFunction(F.getName().substr(5)); if (o) F.replaceAllUsesWith(o); }
  for (auto& F : *M) { Func* f = new Func; f->F = &F; f->name = F.getName().str(); f->isDecl = F.isDeclaration(); f->addr = FBASE + g_funcs.size() * 16; if (f->isDecl) f->builtin = builtinId(f->name); g_funcs.push_back(f); g_fmap[&F] = f; g_fname[f->name] = f; }
  State* s0 = new State; s0->model = std::make_shared<ModelV>();
  for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; g_gaddr[&G] = s0->mem.alloc(sz, K_GLOBAL, nullptr, true, false); Obj* o = s0->mem.find(g_gaddr[&G]); static std::deque<std::string> names; names.push_back(G.getName().str()); o->site = names.back().c_str(); }
  for (auto& G : M->globals()) if (G.hasInitializer()) {
    Obj* o = s0->mem.find(g_gaddr[&G]); Constant* c = G.getInitializer(); if (c->isNullValue()) { if (G.isConstant()) o->ro = true; continue; }
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); for (size_t i = 0; i < raw.size(); i++) o->pages[i / PG]->data[i % PG] = raw[i]; }
    else { std::vector<std::pair<Type*,u64>> lt; leafTypes(G.getValueType(), 0, lt); std::vector<Val> vs; constLeaves(c, G.getValueType(), vs); for (size_t i = 0; i < lt.size(); i++) { unsigned w = tyBits(lt[i].first); memWrite(o, lt[i].second, (w + 7) / 8, vs[i]); } }
    if (G.isConstant()) o->ro = true; }
  Func* e = g_fname.count(entry) ? g_fname[entry] : nullptr; if (!e || e->isDecl) { fprintf(stderr, "dsx: no entry %s\n", entry.c_str()); return 3; }
  std::vector<Val> noargs; pushFrame(s0, e, noargs, {}, -1); work.push_back(s0);
  double lastSplit = 0;
  while (!work.empty()) {
    if (nowSecs() > g_deadline || shm->stop) { g_incomplete["deadline: unexplored states"] += work.size(); break; }
    if (maxp > 1 && work.size() >= 2 && shm->active < maxp && nowSecs() - lastSplit > 0.02) {
      int now = __sync_add_and_fetch(&shm->active, 1);
      if (now <= maxp) { lastSplit = nowSecs(); fflush(0); pid_t p = fork(); if (!p) alarm((unsigned)std::max(1.0, g_deadline - nowSecs() + 30));
        if (p == 0) { resetStats(); size_t h = work.size() / 2; for (size_t i = h; i < work.size(); i++) delete work[i]; work.resize(h ? h : 1); continue; }
        else if (p > 0) { size_t h = work.size() / 2; for (size_t i = 0; i < h; i++) delete work[i]; work.erase(work.begin(), work.begin() + h); }
        else __sync_sub_and_fetch(&shm->active, 1);
      } else __sync_sub_and_fetch(&shm->active, 1);
    }
    State* s = work.back(); work.pop_back(); cur = s;
    try { step(s); } catch (PathEnd&) {} g_paths++;
    if (g_endOk && s->ufs.empty() && !s->inputs.empty() && (g_samples.size() < 2 || (g_paths % 97 == 0 && g_samples.size() < 6))) { evalNewStamp(); std::vector<std::pair<std::string,std::pair<unsigned,u64>>> v; for (auto& i : s->inputs) v.push_back({i.name, {i.e->w, (u64)evalExpr(i.e, *s->model)}}); g_samples.push_back(v); }
    g_endOk = false; delete s;
    if (shm->viol > 200) { g_incomplete["stopped after many violations"]++; break; }
  }
  __sync_sub_and_fetch(&shm->active, 1); dumpResults();
  if (getpid() != root) _exit(0);
  int st, bad = 0; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++;
  if (bad) fprintf(stderr, "dsx: %d workers died\n", bad);
  return bad ? 4 : 0;
}

// Bit-vector / IEEE-754 expression DAG with hash-consing and local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
typedef unsigned __int128 u128;

enum Op : u8 {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FISNAN, E_FPTOSI, E_SITOFP, E_UITOFP,
  E_FPEXT, E_FPTRUNC, E_FROUND, E_FSQRT
};
extern const char* opName[];

struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
  u8 op; bool uninit; u8 fp; u16 w; u32 id; u32 aux; u32 depth;
  Expr* k[3];
  u128 c;
  VarSet* vars;
  u64 stamp; u128 ev;
  bool isC() const { return op == E_CONST; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline __int128 sextv(u128 v, unsigned w) { if (w >= 128) return (__int128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (__int128)((v ^ m) - m); }
static inline double bits2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 d2bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float bits2f(u32 b) { float d; memcpy(&d, &b, 4); return d; }
static inline u32 f2bits(float d) { u32 b; memcpy(&b, &d, 4); return b; }

struct VarInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<VarInfo> g_vars;

Expr* mkConst(u128 c, unsigned w);
Expr* mkVar(const std::string& name, unsigned w, bool uninit = false);
Expr* mk(u8 op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkNot(Expr* a);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
VarSet* vsUnion(VarSet* a, VarSet* b);
u128 foldOp(u8 op, unsigned w, u32 aux, u128 a, u128 b, u128 c, unsigned wa, unsigned wb);
std::string exprStr(Expr* e, int depth = 6);
size_t exprCount();

typedef std::vector<u64> ModelV;   // by var id; missing => 0
u128 evalExpr(Expr* e, const ModelV& m);
void evalNewStamp();

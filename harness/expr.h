// Expressions over symbolic operands: builds the source text of an expression from a bounded grammar, evaluates it with the
#pragma once
// real compiler and VM, and evaluates the same token sequence with an independent precedence-climbing reference (docs/operators.md).
#include "lit.h"
enum { X_ADD, X_SUB, X_MUL, X_DIV, X_MOD, X_POW, X_BAND, X_BXOR, X_BOR, X_LT, X_GT, X_LE, X_GE, X_EQ, X_NE, X_AND, X_OR, X_NOPS };
static const char *const x_txt[] = {"+", "-", "*", "/", "%", "**", "&", "^", "|", "<", ">", "<=", ">=", "==", "!=", "and", "or"};
static const int x_prec[] = {8, 8, 9, 9, 9, 10, 7, 6, 5, 4, 4, 4, 4, 3, 3, 2, 1};
typedef struct { int nop; int op[4]; int un[5]; Value v[5]; char txt[5][4200]; int lo, hi; } XExpr; // operand i has prefix un[i] (0 none, 1 '-', 2 'not'); lo..hi: parenthesised operand range, lo < 0: none
static int x_err;
static int x_falsey(Value v) { if (IS_BOOL(v)) return v == FALSE_VAL; if (IS_NUMBER(v)) return AS_NUMBER(v) == 0; return v == NIL_VAL; }
static Value x_apply(int op, Value a, Value b) {
  if (op == X_EQ || op == X_NE) { int e = (IS_NUMBER(a) && IS_NUMBER(b)) ? (AS_NUMBER(a) == AS_NUMBER(b)) | (a == b) : a == b; return BOOL_VAL(op == X_EQ ? e : !e); }
  if (!IS_NUMBER(a) || !IS_NUMBER(b)) { x_err = 1; return NIL_VAL; }
  double x = AS_NUMBER(a), y = AS_NUMBER(b);
  switch (op) { case X_ADD: return NUMBER_VAL(x + y); case X_SUB: return NUMBER_VAL(x - y); case X_MUL: return NUMBER_VAL(x * y); case X_DIV: return NUMBER_VAL(x / y);
    case X_MOD: return NUMBER_VAL(fmod(x, y)); case X_POW: return NUMBER_VAL(pow(x, y));
    case X_BAND: return NUMBER_VAL((double)((int)x & (int)y)); case X_BXOR: return NUMBER_VAL((double)((int)x ^ (int)y)); case X_BOR: return NUMBER_VAL((double)((int)x | (int)y));
    case X_LT: return BOOL_VAL(x < y); case X_GT: return BOOL_VAL(x > y); case X_LE: return BOOL_VAL(!(x > y)); case X_GE: return BOOL_VAL(!(x < y)); } // NaN with <= and >=: see V02
  return NIL_VAL; }
// precedence climbing over operands p..q; skip: evaluate nothing (short circuit)
static int x_pos; static Value x_range(XExpr *e, int minp, int q, int skip, int nested);
static Value x_operand(XExpr *e, int q, int skip, int nested) {
  int i = x_pos; int u = e->un[i]; Value v;
  if (e->lo == i && !nested) { v = x_range(e, 0, e->hi, skip, 1); } else { v = e->v[i]; }
  if (nested && e->lo == i) u = 0; // the prefix belongs to the parenthesis
  if (skip || x_err) return v;
  if (u == 1) { if (!IS_NUMBER(v)) { x_err = 1; return NIL_VAL; } return NUMBER_VAL(-AS_NUMBER(v)); }
  if (u == 2) return BOOL_VAL(x_falsey(v));
  return v; }
static Value x_range(XExpr *e, int minp, int q, int skip, int nested) {
  Value l = x_operand(e, q, skip, nested);
  while (x_pos < q && x_prec[e->op[x_pos]] > minp) {
    int op = e->op[x_pos]; x_pos++;
    if (op == X_AND || op == X_OR) { int f = (skip || x_err) ? 0 : (int)sx_concretize((uint64_t)x_falsey(l)); int take = op == X_AND ? !f : f; Value r = x_range(e, x_prec[op], q, skip || x_err || !take, nested ? x_pos != e->lo : 0); if (!skip && !x_err && take) l = r; }
    else { Value r = x_range(e, x_prec[op], q, skip, nested ? x_pos != e->lo : 0); if (!skip && !x_err) l = x_apply(op, l, r); } }
  return l; }
static Value x_ref(XExpr *e) { x_pos = 0; x_err = 0; Value v = x_range(e, 0, e->nop, 0, 0); return v; }
static void x_source(XExpr *e, char *o) { *o = 0;
  for (int i = 0; i <= e->nop; i++) { if (i) { strcat(o, " "); strcat(o, x_txt[e->op[i - 1]]); strcat(o, " "); }
    strcat(o, e->un[i] == 1 ? "-" : e->un[i] == 2 ? "not " : ""); if (e->lo == i) strcat(o, "("); strcat(o, e->txt[i]); if (e->lo >= 0 && e->hi == i) strcat(o, ")"); } }
static Value x_vals[12], x_got; static int x_have;
static Value xn_val(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return x_vals[(int)AS_NUMBER(a[0])]; }
static Value xn_rec(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; x_got = a[0]; x_have++; return NIL_VAL; }
// context 0: module variables, 1: parameters, 2: captured variables, 3: fields of this
static const char *const x_pre[] = {"var a = val(0); var b = val(1); var c = val(2); var d = val(3); rec(", "def f(a, b, c, d) { return ", "def f(a, b, c, d) { def g() { return ", "class C { init(a, b, c, d) { this.a = a; this.b = b; this.c = c; this.d = d; } m() { return "};
static const char *const x_post[] = {");", "; } rec(f(val(0), val(1), val(2), val(3)));", "; } return g(); } rec(f(val(0), val(1), val(2), val(3)));", "; } } rec(C(val(0), val(1), val(2), val(3)).m());"};
static int x_same(Value x, Value y) { if (x == y) return 1; if (IS_NUMBER(x) & IS_NUMBER(y)) { double p = AS_NUMBER(x), q = AS_NUMBER(y); return (p != p) & (q != q); } return 0; }
static void x_run(DictuVM *vm, XExpr *e, int ctx) {
  static char ex[24000], src[26000]; x_source(e, ex); strcpy(src, x_pre[ctx]); strcat(src, ex); strcat(src, x_post[ctx]);
  x_have = 0; int rc = hx_run(vm, src);
  sx_assert(rc != 1, "expression compiles");
  Value want = x_ref(e);
  if (x_err) { sx_cover("type-error"); sx_assert(rc == 2, "operand of the wrong type raises a runtime error"); return; }
  sx_assert(rc == 0 && x_have == 1, "well-typed expression evaluates without an error");
  if (x_have != 1) return;
  sx_assert(x_same(x_got, want), "value of the expression equals its value under the documented precedence and operator semantics");
  sx_cover("end"); }

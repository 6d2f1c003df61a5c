// @wrapfn strtod
// @covers end, mixed, type-error
// @quick NOP=2 CTX=3
// @thorough NOP=3 CTX=4
// @bounds every expression of 1..NOP arithmetic operators (+ - * / % **) whose operands are number literals (any finite value) or variables (any non-NaN number), at most one operand with a prefix - or not, optional parentheses around one operand pair; evaluated as module code, from parameters, from captured variables (thorough: also from fields)
#include "expr.h"
void h_fold(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  static XExpr e; lit_n = 0; int maxop = sx_param("NOP", 2); e.nop = 1 + sx_choose("nop", maxop);
  for (int i = 0; i < e.nop; i++) e.op[i] = sx_choose("op", 6);
  int lits = sx_choose("lits", 1 << (e.nop + 1)); int un = sx_choose("un", 1 + 2 * (e.nop + 1));
  for (int i = 0; i <= e.nop; i++) { e.un[i] = un > 2 * i && un <= 2 * i + 2 ? un - 2 * i : 0; }
  e.lo = -1; if (e.nop > 1) { int p = sx_choose("paren", e.nop + 1); if (p > 0) { e.lo = p - 1; e.hi = p; if (e.un[e.lo] == 2) sx_assume(0); } } // not (a op b) needs a zero test of an FP product: covered by V04 on integers
  int ctx = sx_choose("ctx", sx_param("CTX", 3)); static const char *const fld[] = {"this.a", "this.b", "this.c", "this.d"}; static const char nm[] = "abcd";
  if (lits == 0 && ctx == 0) sx_cover("no-literal"); if (lits & (lits + 1)) sx_cover("mixed");
  for (int i = 0; i < 4; i++) x_vals[i] = NUMBER_VAL(0);
  for (int i = 0; i <= e.nop; i++) {
    if (lits >> i & 1) { lit_new(e.txt[i], "lit"); e.v[i] = NUMBER_VAL(lit_val[lit_n - 1]); }
    else { double d = sx_double("var"); sx_assume(d == d); e.v[i] = x_vals[i] = NUMBER_VAL(d); if (ctx == 3) strcpy(e.txt[i], fld[i]); else { e.txt[i][0] = nm[i]; e.txt[i][1] = 0; } } }
  x_run(vm, &e, ctx); dictuFreeVM(vm);
}

// @covers end, type-error
// @quick NOP=2 CTX=1 RANGE=3
// @timeout 300 850
// @thorough NOP=3 CTX=1 RANGE=4
// @bounds every sequence of 2..NOP of the 17 binary operators, optional parentheses around one operand pair, at most one operand with a prefix - or not; operands integers -RANGE..RANGE
#include "expr.h"
void h_precedence(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  static XExpr e; e.nop = sx_param("NOP", 2); for (int i = 0; i < e.nop; i++) e.op[i] = sx_choose("op", X_NOPS);
  int un = sx_choose("un", e.nop == 2 ? 1 + 2 * (e.nop + 1) : 1); e.lo = -1; int p = sx_choose("paren", e.nop + 1); if (p > 0) { e.lo = p - 1; e.hi = p; }
  int ctx = sx_choose("ctx", sx_param("CTX", 1)); int R = sx_param("RANGE", 8); static const char *const fld[] = {"this.a", "this.b", "this.c", "this.d"}; static const char nm[] = "abcd";
  for (int i = 0; i < 4; i++) x_vals[i] = NUMBER_VAL(0);
  for (int i = 0; i <= e.nop; i++) { e.un[i] = un > 2 * i && un <= 2 * i + 2 ? un - 2 * i : 0; x_vals[i] = e.v[i] = NUMBER_VAL((double)(int)sx_range("v", -R, R)); if (ctx == 3) strcpy(e.txt[i], fld[i]); else { e.txt[i][0] = nm[i]; e.txt[i][1] = 0; } }
  x_run(vm, &e, ctx); dictuFreeVM(vm);
}

// @covers end, type-error
// @quick CTX=2
// @thorough CTX=4
// @bounds one operator (all 17), each operand any non-NaN number or true/false/nil, at most one operand with a prefix - or not; number operands of the bitwise operators within -2^31 < x < 2^31 (other values are undefined in C)
#include "expr.h"
void h_operators(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  static XExpr e; e.nop = 1; e.op[0] = sx_choose("op", X_NOPS); e.lo = -1; int un = sx_choose("un", 5); int ctx = sx_choose("ctx", sx_param("CTX", 2));
  for (int i = 0; i < 4; i++) x_vals[i] = NUMBER_VAL(0);
  for (int i = 0; i < 2; i++) { e.un[i] = un > 2 * i && un <= 2 * i + 2 ? un - 2 * i : 0; static const char *const fld[] = {"this.a", "this.b"}; strcpy(e.txt[i], ctx == 3 ? fld[i] : i ? "b" : "a");
    int k = sx_choose("kind", 4); if (k == 0) { double d = sx_double("x"); sx_assume(d == d); if (e.op[0] >= X_BAND && e.op[0] <= X_BOR) sx_assume(d > -2147483648.0 && d < 2147483648.0); e.v[i] = NUMBER_VAL(d); } else e.v[i] = k == 1 ? TRUE_VAL : k == 2 ? FALSE_VAL : NIL_VAL;
    x_vals[i] = e.v[i]; }
  x_run(vm, &e, ctx); dictuFreeVM(vm);
}

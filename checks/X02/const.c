// @covers end, constant, variable
// @weight 2
// @bounds one var or const x declared globally, in a block, in a function, as a list-unpacked variable or as a loop variable; optionally shadowed by another var or const; assigned by =, each compound operator or list unpacking from the same scope, a nested block, a nested function, a closure two levels deep or a method; initial and new value any non-NaN number
#include "expr.h"
void h_const(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  int decl = sx_choose("decl", 5), isconst = sx_choose("const", 2), shadow = sx_choose("shadow", 3), from = sx_choose("from", 5), op = sx_choose("op", 9);
  static const char *const ops[] = {"x = val(1);", "x += val(1);", "x -= val(1);", "x *= val(1);", "x /= val(1);", "x &= 3;", "x ^= 3;", "x |= 3;", "[x, other] = [val(1), 4];"};
  if (decl == 4 && isconst) sx_assume(0); // a loop variable is never constant
  double a = sx_double("a"), b = sx_double("b"); sx_assume(a == a && b == b); if (op >= 5 && op <= 7) sx_assume(a > -1e9 && a < 1e9); x_vals[0] = NUMBER_VAL(a); x_vals[1] = NUMBER_VAL(b);
  char src[2000]; char *s = src; const char *kw = isconst ? "const" : "var";
  // statement that assigns, and what is expected of x where it is assigned
  char as[400]; static const char *const sh[] = {"", "var x = 50; ", "const x = 50; "};
  switch (from) {
    case 0: if (shadow) { sprintf(as, "{ %s%s rec(x); }", sh[shadow], ops[op]); } else sprintf(as, "%s rec(x);", ops[op]); break;
    case 1: sprintf(as, "{ { %s%s rec(x); } }", sh[shadow], ops[op]); break;
    case 2: sprintf(as, "def g() { %s%s rec(x); } g();", sh[shadow], ops[op]); break;
    case 3: sprintf(as, "def g() { %sdef h() { %s rec(x); } h(); } g();", sh[shadow], ops[op]); break;
    default: sprintf(as, "class K { m() { %s%s rec(x); } } K().m();", sh[shadow], ops[op]); break; }
  s += sprintf(s, "var other = 0; ");
  switch (decl) {
    case 0: s += sprintf(s, "%s x = val(0); %s rec(x);", kw, as); break;
    case 1: s += sprintf(s, "{ %s x = val(0); %s rec(x); }", kw, as); break;
    case 2: s += sprintf(s, "def f() { var pad = 1; %s x = val(0); %s rec(x); } f();", kw, as); break;
    case 3: s += sprintf(s, "def f() { %s [w, x] = [9, val(0)]; %s rec(x); check(w == 9, \"neighbour\"); } f();", kw, as); break;
    default: s += sprintf(s, "for (var x = val(0); other < 1; other += 1) { %s rec(x); break; }", as); break; }
  static Value got[2]; x_have = 0; int target = shadow == 0 ? isconst : shadow == 2;
  int rc = hx_run(vm, src);
  if (target) { sx_cover("constant"); sx_assert(rc == 1 && !x_have, "assigning to a constant is rejected before anything runs"); dictuFreeVM(vm); return; }
  sx_assert(rc == 0 && x_have == 2, "assigning to a variable is accepted"); if (rc != 0 || x_have != 2) return; sx_cover("variable");
  static const int id[] = {-1, X_ADD, X_SUB, X_MUL, X_DIV, X_BAND, X_BXOR, X_BOR, -1}; Value base = shadow ? NUMBER_VAL(50) : x_vals[0], rhs = op >= 5 && op <= 7 ? NUMBER_VAL(3) : x_vals[1];
  Value nv = id[op] < 0 ? rhs : x_apply(id[op], base, rhs); got[0] = x_got;
  sx_assert(x_same(got[0], shadow ? x_vals[0] : nv), "after the assignment the variable it names holds the new value and a variable it does not name is unchanged");
  dictuFreeVM(vm); sx_cover("end");
}

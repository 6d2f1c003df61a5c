// @covers end
// @bounds operators += -= *= /= &= ^= |= on a local, module variable, captured variable, attribute of this and of another object, private attribute, attribute of an attribute and of a list item, any list item of lists of 1..7 (positive, negative and computed index) and dictionary item; both operands any non-NaN number (within int range for the bitwise ones)
#include "expr.h"
static const char *const c_src[] = {
  "def f(x, y) { x %s y; return x; } rec(f(val(0), val(1)));",
  "var x = val(0); x %s val(1); rec(x);",
  "def f(x, y) { def g() { x %s y; } g(); return x; } rec(f(val(0), val(1)));",
  "class C { init(x) { this.x = x; } m(y) { this.x %s y; } } var o = C(val(0)); o.m(val(1)); rec(o.x);",
  "class C { init(x) { this.x = x; } } var o = C(val(0)); o.x %s val(1); rec(o.x);",
  "class C { private x; init(x) { this.x = x; } m(y) { this.x %s y; return this.x; } } var o = C(val(0)); rec(o.m(val(1)));",
  "var l = [7, val(0), 9]; l[1] %s val(1); rec(l[1]); check(l[0] == 7 and l[2] == 9 and l.len() == 3, \"other items\");",
  "var d = {\"k\": val(0), \"o\": 4}; d[\"k\"] %s val(1); rec(d[\"k\"]); check(d[\"o\"] == 4 and d.len() == 2, \"other items\");",
  "var l = [7, val(0)]; l[-1] %s val(1); rec(l[1]);",
  "var l = [7, val(0), 9, 11]; l[-3] %s val(1); rec(l[1]); check(l[0] == 7 and l[2] == 9 and l[3] == 11 and l.len() == 4, \"other items\");",
  "var l = [val(0), 9]; l[-2] %s val(1); rec(l[0]); check(l[1] == 9 and l.len() == 2, \"other items\");",
  "var l = [5, 9, val(0)]; var i = 0; def at() { i += 1; return 2; } l[at()] %s val(1); rec(l[2]); check(l[1] == 9 and l[0] == 5 and i == 1, \"other items; index evaluated once\");",
  "var l = [[val(0)]]; l[0][0] %s val(1); rec(l[0][0]);",
  "class C { init(x) { this.x = x; this.y = 6; } } class D { init(p) { this.p = p; } } var o = D(C(val(0))); var p = o.p; o.p.x %s val(1); rec(p.x); check(o.p == p and p.y == 6, \"other attributes\");",
  "class C { init(x) { this.x = x; } } var o = [4, C(val(0))]; o[1].x %s val(1); rec(o[1].x); check(o[0] == 4, \"other items\");",
  "var d = {1: 2, true: val(0), nil: 3, \"k\": [4]}; d[true] %s val(1); rec(d[true]); check(d[1] == 2 and d[nil] == 3 and d[\"k\"] == [4] and d.len() == 4, \"other items\");",
};
#define C_N (int)(sizeof c_src / sizeof *c_src)
void h_compound(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  static const char *const op[] = {"+=", "-=", "*=", "/=", "&=", "^=", "|="}; static const int id[] = {X_ADD, X_SUB, X_MUL, X_DIV, X_BAND, X_BXOR, X_BOR};
  int o = sx_choose("op", 7), t = sx_choose("target", C_N + 1), n = 0, at = 0; double x = sx_double("x"), y = sx_double("y"); sx_assume(x == x && y == y);
  if (o >= 4) sx_assume(x > -2147483648.0 && x < 2147483648.0 && y > -2147483648.0 && y < 2147483648.0);
  x_vals[0] = NUMBER_VAL(x); x_vals[1] = NUMBER_VAL(y); char src[512]; if (t < C_N) sprintf(src, c_src[t], op[o]);
  else { n = 1 + sx_choose("length", 7); at = sx_choose("index", 14) - n; sx_assume(at < n); int ix = at < 0 ? at + n : at; char *q = src; q += sprintf(q, "var l = [");
    for (int i = 0; i < n; i++) q += sprintf(q, i == ix ? "%sval(0)" : "%s%d", i ? ", " : "", 20 + i);
    q += sprintf(q, "]; l[%d] %s val(1); rec(l[%d]); ", at, op[o], ix); for (int i = 0; i < n; i++) if (i != ix) q += sprintf(q, "check(l[%d] == %d, \"other items\"); ", i, 20 + i); sprintf(q, "check(l.len() == %d, \"length\");", n); }
  x_have = 0;
  int rc = hx_run(vm, src); sx_assert(rc == 0 && x_have == 1, "compound assignment evaluates without an error");
  x_err = 0; if (x_have == 1) sx_assert(x_same(x_got, x_apply(id[o], x_vals[0], x_vals[1])), "x op= y stores x op y"); sx_cover("end"); dictuFreeVM(vm);
}

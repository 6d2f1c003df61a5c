// @covers end, bound, error, variadic, default, unpack
// @quick R=3 O=3 A=4 U=3
// @thorough R=3 O=4 A=5 U=5
// @bounds callees: function, arrow function, returned closure, method called on an instance, on this, through super, bound method, static method, constructor, private method, function stored in an attribute, a list or a dictionary; 0..R required, 0..O optional (defaults constant or computed from an earlier parameter) or one spread parameter; 0..A positional arguments and optionally a final unpacked list of 0..U items; arguments any non-NaN number, nil, true or false
#include "expr.h"
enum { K_FN, K_ARROW, K_CLOSURE, K_METHOD, K_THIS, K_SUPER, K_BOUND, K_STATIC, K_INIT, K_PRIVATE, K_ATTR, K_LIST, K_DICT, K_N };
void h_call(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  int kind = sx_choose("kind", K_N), R = sx_choose("required", sx_param("R", 2) + 1), O = sx_choose("optional", sx_param("O", 2) + 2), V = 0;
  if (O == sx_param("O", 2) + 1) { V = 1; O = 0; }
  if (V && kind == K_INIT) sx_assume(0);
  int A = sx_choose("args", sx_param("A", 3) + 1), U = sx_choose("unpack", sx_param("U", 2) + 2) - 1, T = A + (U > 0 ? U : 0);
  char par[200] = "", ret[200] = "[", arg[300] = "", src[2000]; int p = 0;
  for (int i = 0; i < R; i++) { sprintf(par + strlen(par), "%sp%d", p ? ", " : "", p); p++; }
  for (int i = 0; i < O; i++) { if (i % 2) sprintf(par + strlen(par), "%sp%d=p%d + 10", p ? ", " : "", p, p - 1); else sprintf(par + strlen(par), "%sp%d=%d", p ? ", " : "", p, 100 + p); p++; }
  if (V) { sprintf(par + strlen(par), "%s...p%d", p ? ", " : "", p); p++; }
  for (int i = 0; i < p; i++) sprintf(ret + strlen(ret), "%sp%d", i ? ", " : "", i);
  strcat(ret, "]");
  static Value vals[10]; for (int i = 0; i < T; i++) { char n[4] = {'v', (char)('0' + i), 0}; Value x = sx_sym(n, 64); int at = R + O > i + 1 && i + 1 > R && ((i + 1 - R) % 2) ? 1 : 0; sx_assume((((x & QNAN) != QNAN) & (AS_NUMBER(x) == AS_NUMBER(x))) | (!at & ((x == NIL_VAL) | (x == TRUE_VAL) | (x == FALSE_VAL)))); vals[i] = x; }
  for (int i = 0; i < T; i++) x_vals[i] = vals[i];
  for (int i = 0; i < A; i++) sprintf(arg + strlen(arg), "%sval(%d)", i ? ", " : "", i);
  if (U >= 0) { sprintf(arg + strlen(arg), "%s...[", A ? ", " : ""); for (int i = 0; i < U; i++) sprintf(arg + strlen(arg), "%sval(%d)", i ? ", " : "", A + i); strcat(arg, "]"); sx_cover("unpack"); }
  switch (kind) {
    case K_FN: sprintf(src, "def f(%s) { var z = 5; return %s; } def t() { var q = 77; var r = [1, f(%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    case K_ARROW: sprintf(src, "const f = def (%s) => %s; def t() { var q = 77; var r = [1, f(%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    case K_CLOSURE: sprintf(src, "def mk() { var k = 0; def g(%s) { k += 1; return %s; } return g; } def t() { var q = 77; var r = [1, mk()(%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    case K_METHOD: sprintf(src, "class C { m(%s) { return %s; } } def t() { var q = 77; var r = [1, C().m(%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    case K_THIS: sprintf(src, "class C { m(%s) { return %s; } t() { var q = 77; var r = [1, this.m(%s), 2]; rec([r, q]); } } C().t();", par, ret, arg); break;
    case K_SUPER: sprintf(src, "class B { m(%s) { return %s; } } class C < B { m() { return nil; } t() { var q = 77; var r = [1, super.m(%s), 2]; rec([r, q]); } } C().t();", par, ret, arg); break;
    case K_BOUND: sprintf(src, "class C { m(%s) { return %s; } } def t() { var q = 77; var b = C().m; var r = [1, b(%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    case K_STATIC: sprintf(src, "class C { static m(%s) { return %s; } } def t() { var q = 77; var r = [1, C.m(%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    case K_INIT: sprintf(src, "class C { init(%s) { this.r = %s; } } def t() { var q = 77; var r = [1, C(%s), 2]; rec([[r[0], r[1].r, r[2]], q]); } t();", par, ret, arg); break;
    case K_PRIVATE: sprintf(src, "class C { private m(%s) { return %s; } t() { var q = 77; var r = [1, this.m(%s), 2]; rec([r, q]); } } C().t();", par, ret, arg); break;
    case K_ATTR: sprintf(src, "class C {} def t() { var q = 77; var o = C(); o.f = def (%s) => %s; var r = [1, o.f(%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    case K_LIST: sprintf(src, "def f(%s) { return %s; } def t() { var q = 77; var l = [nil, f]; var r = [1, l[1](%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
    default: sprintf(src, "def f(%s) { return %s; } def t() { var q = 77; var l = {\"f\": f}; var r = [1, l[\"f\"](%s), 2]; rec([r, q]); } t();", par, ret, arg); break;
  }
  x_have = 0; int rc = hx_run(vm, src);
  if (T < R || (!V && T > R + O)) { sx_cover("error"); sx_assert(rc == 2 && !x_have, "a call with too few or too many arguments raises a runtime error"); dictuFreeVM(vm); return; }
  sx_assert(rc == 0 && x_have == 1, "a call with an accepted number of arguments evaluates");
  if (rc != 0 || x_have != 1) return;
  ObjList *o = AS_LIST(x_got), *f = AS_LIST(o->values.values[0]);
  sx_assert(o->values.values[1] == NUMBER_VAL(77) && f->values.count == 3 && f->values.values[0] == NUMBER_VAL(1) && f->values.values[2] == NUMBER_VAL(2), "values around the call are unchanged");
  ObjList *g = AS_LIST(f->values.values[1]); sx_assert(g->values.count == p, "number of parameters"); sx_cover("bound");
  Value prev = NIL_VAL;
  for (int i = 0; i < R + O; i++) { Value want = i < T ? vals[i] : (i - R) % 2 ? NUMBER_VAL(AS_NUMBER(prev) + 10) : NUMBER_VAL(100 + i); if (i >= T) sx_cover("default");
    sx_assert(x_same(g->values.values[i], want), "a parameter holds its argument, or its default when none was given"); prev = want; }
  if (V) { sx_cover("variadic"); ObjList *l = AS_LIST(g->values.values[R]); sx_assert(l->values.count == T - R, "the spread parameter holds every remaining argument"); for (int i = 0; i < l->values.count; i++) sx_assert(x_same(l->values.values[i], vals[R + i]), "the spread parameter holds the remaining arguments in order"); }
  dictuFreeVM(vm); sx_cover("end");
}

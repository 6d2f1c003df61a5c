// @covers end, super, trait, undefined, init
// @quick LEVELS=3
// @thorough LEVELS=4
// @weight 3
// @timeout 200 850
// @bounds class chains of 1..LEVELS classes; every class may define m (plain, or calling super.m directly or from a nested closure), or take it from trait T1, T2 or both in that order, or define nothing; m called on an instance, through an inherited method that calls this.m(), as a bound method, from a subclass instance of every level; attribute value any non-NaN number
#include "expr.h"
// kinds of m at a level
enum { M_NONE, M_OWN, M_SUPER, M_SUPERCLOSURE, M_T1, M_T2, M_T1T2, M_T2T1, M_N };
void h_dispatch(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  int L = sx_choose("levels", sx_param("LEVELS", 3)) + 1, kind[5]; char src[4000] = "trait T1 { m() { return [91]; } } trait T2 { m() { return [92]; } } ", want[5][60]; int has = 0; char *s = src + strlen(src);
  for (int i = 0; i < L; i++) {
    char nm[4] = {'k', (char)('0' + i), 0}; int k = kind[i] = sx_choose(nm, M_N);
    if ((k == M_SUPER || k == M_SUPERCLOSURE) && !has) sx_assume(0);
    s += sprintf(s, "class C%d", i); if (i) s += sprintf(s, " < C%d", i - 1); s += sprintf(s, " { ");
    if (!i) s += sprintf(s, "init(v) { this.v = v; } t() { return this.m(); } ");
    if (i) strcpy(want[i], want[i - 1]);
    switch (k) {
      case M_OWN: s += sprintf(s, "m() { return [%d]; } ", i); sprintf(want[i], "[%d]", i); has = 1; break;
      case M_SUPER: s += sprintf(s, "m() { return [%d, super.m()]; } ", i); sprintf(want[i], "[%d, %s]", i, want[i - 1]); sx_cover("super"); break;
      case M_SUPERCLOSURE: s += sprintf(s, "m() { const f = def () => super.m(); return [%d, f()]; } ", i); sprintf(want[i], "[%d, %s]", i, want[i - 1]); break;
      case M_T1: s += sprintf(s, "use T1; "); strcpy(want[i], "[91]"); has = 1; sx_cover("trait"); break;
      case M_T2: s += sprintf(s, "use T2; "); strcpy(want[i], "[92]"); has = 1; break;
      case M_T1T2: s += sprintf(s, "use T1, T2; "); strcpy(want[i], "[92]"); has = 1; break;
      case M_T2T1: s += sprintf(s, "use T2, T1; "); strcpy(want[i], "[91]"); has = 1; break;
      default: if (!i) strcpy(want[i], ""); break; }
    if (k == M_NONE && !has) strcpy(want[i], "");
    s += sprintf(s, "} "); }
  int at = sx_choose("of", L), how = sx_choose("how", 3);
  double x = sx_double("v"); sx_assume(x == x); x_vals[0] = NUMBER_VAL(x);
  s += sprintf(s, "var o = C%d(val(0)); ", at); 
  static const char *const call[] = {"o.m()", "o.t()", "bound()"}; if (how == 2) s += sprintf(s, "var bound = o.m; ");
  s += sprintf(s, "rec([o.v, %s.toString()]);", call[how]);
  x_have = 0; int rc = hx_run(vm, src);
  if (!*want[at]) { sx_cover("undefined"); sx_assert(rc == 2 && !x_have, "calling a method that no class of the chain has raises a runtime error"); dictuFreeVM(vm); return; }
  sx_assert(rc == 0 && x_have == 1, "calling a method that a class of the chain has evaluates"); if (rc != 0 || x_have != 1) return;
  ObjList *r = AS_LIST(x_got); sx_assert(x_same(r->values.values[0], x_vals[0]), "the inherited constructor ran with the argument"); sx_cover("init");
  sx_assert(strcmp(AS_CSTRING(r->values.values[1]), want[at]) == 0, "the method of the nearest class is called, and super is the method of the class above the one that contains the call");
  dictuFreeVM(vm); sx_cover("end");
}

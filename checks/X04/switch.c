// @covers end, matched, default, none
// @quick CASES=3 VALUES=4
// @thorough CASES=4 VALUES=7
// @bounds switch with 1..CASES cases of 1..VALUES values each (numbers, or numbers and strings), with and without default, at the top level, in a function and in a loop; switched value any number, or a string
#include "expr.h"
void h_switch(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  int n = sx_choose("cases", sx_param("CASES", 3) + 1), d = sx_choose("default", 2), where = sx_choose("where", 3), mix = sx_choose("strings", 2), m[5], id = 0; if (n == 0) sx_assume(0);
  static const char *const pre[] = {"var q = 5; ", "def f() { var q = 5; ", "for (var z = 0; z < 1; z += 1) { var q = 5; "}, *const post[] = {"rec(q);", "rec(q); } f();", "rec(q); }"};
  static char src[3000]; char *s = src; s += sprintf(s, "%sswitch (val(0)) { ", pre[where]);
  for (int i = 0; i < n; i++) { char nm[4] = {'m', (char)('0' + i), 0}; m[i] = 1 + sx_choose(nm, sx_param("VALUES", 4)); s += sprintf(s, "case ");
    for (int j = 0; j < m[i]; j++, id++) s += sprintf(s, mix && id % 2 ? "%s\"s%d\"" : "%s%d", j ? ", " : "", 10 + id);
    s += sprintf(s, ": { var w = q; q = w + %d; } ", 100 * (i + 1)); }
  if (d) s += sprintf(s, "default: { q = q + 7; } "); sprintf(s, "} %s", post[where]);
  double v = sx_double("v"); sx_assume(v == v); int str = mix && sx_choose("string", 2), k = str ? sx_choose("k", id + 1) : 0; char t[8]; sprintf(t, "s%d", 10 + k);
  x_vals[0] = str ? OBJ_VAL(copyString(vm, t, (int)strlen(t))) : NUMBER_VAL(v); push(vm, x_vals[0]);
  x_have = 0; int rc = hx_run(vm, src); sx_assert(rc == 0 && x_have == 1, "switch statement evaluates"); if (rc || x_have != 1) return;
  int want = -1; id = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < m[i]; j++, id++) { int isS = mix && id % 2; if (want < 0 && isS == str && (isS ? k == id : sx_concretize(v == 10 + id))) want = i; }
  double w = 5 + (want >= 0 ? 100 * (want + 1) : d ? 7 : 0); sx_cover(want >= 0 ? "matched" : d ? "default" : "none");
  sx_assert(x_got == NUMBER_VAL(w), "exactly the first case with an equal value runs, or the default, and nothing else"); pop(vm); dictuFreeVM(vm); sx_cover("end");
}

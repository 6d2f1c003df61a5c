// @covers end, auto, valued
// @quick N=3
// @thorough N=4
// @bounds enums of 1..N entries (global or in a function), each without a value or with a number, string, expression, function or list value; any non-NaN number; access by name, values(), call of a stored function, assignment, unknown name
#include "expr.h"
void h_enum(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  int N = sx_choose("n", sx_param("N", 3)) + 1, kind[6], where = sx_choose("where", 2), trail = 0; char src[2000]; char *s = src;
  double x = sx_double("v"); sx_assume(x == x); x_vals[0] = NUMBER_VAL(x);
  if (where) s += sprintf(s, "def t() { var l = 3; ");
  s += sprintf(s, "enum E { ");
  for (int i = 0; i < N; i++) { char nm[4] = {'k', (char)('0' + i), 0}; kind[i] = sx_choose(nm, 6);
    static const char *const f[] = {"", " = val(0)", " = \"str\"", " = val(0) + 1", " = def (q) => [q, 5]", " = [val(0)]"};
    s += sprintf(s, "%sm%d%s", i ? ", " : "", i, f[kind[i]]); if (kind[i]) sx_cover("valued"); else sx_cover("auto"); }
  if (trail) s += sprintf(s, ",");
  int what = sx_choose("what", 4), at = sx_choose("at", N);
  s += sprintf(s, " } ");
  switch (what) {
    case 0: s += sprintf(s, "rec([E.m%d, E.values()[\"m%d\"], E.values().len()]); ", at, at); break;
    case 1: s += sprintf(s, "E.m%d = 3; rec(1); ", at); break;
    case 2: s += sprintf(s, "E.zz; rec(1); "); break;
    default: s += sprintf(s, "rec(E.m%d(7)); ", at); break; }
  if (where) s += sprintf(s, "check(l == 3, \"locals around an enum\"); } t();");
  x_have = 0; int rc = hx_run(vm, src);
  if (what == 1 || what == 2 || (what == 3 && kind[at] != 4)) { sx_assert(rc == 2 && !x_have, "assigning to an enum, naming an absent entry or calling a value that is no function raises a runtime error"); dictuFreeVM(vm); return; }
  sx_assert(rc == 0 && x_have == 1, "using an enum entry evaluates"); if (rc != 0 || x_have != 1) return;
  ObjList *r = AS_LIST(x_got);
  if (what == 3) { sx_assert(r->values.count == 2 && r->values.values[0] == NUMBER_VAL(7) && r->values.values[1] == NUMBER_VAL(5), "a function stored in an enum is callable"); sx_cover("end"); dictuFreeVM(vm); return; }
  Value e = r->values.values[0], d = r->values.values[1]; sx_assert(r->values.values[2] == NUMBER_VAL(N), "values() has every entry");
  sx_assert(x_same(e, d), "values() holds the value of every entry");
  switch (kind[at]) {
    case 0: sx_assert(x_same(e, NUMBER_VAL(at)), "an entry without a value is its position"); break;
    case 1: sx_assert(x_same(e, x_vals[0]), "an entry with a value is that value"); break;
    case 2: sx_assert(IS_STRING(e) && !strcmp(AS_CSTRING(e), "str"), "an entry with a value is that value"); break;
    case 3: sx_assert(x_same(e, NUMBER_VAL(x + 1)), "an entry with a value is that value"); break;
    case 4: sx_assert(IS_CLOSURE(e), "an entry with a value is that value"); break;
    default: sx_assert(IS_LIST(e) && AS_LIST(e)->values.count == 1 && x_same(AS_LIST(e)->values.values[0], x_vals[0]), "an entry with a value is that value"); break; }
  dictuFreeVM(vm); sx_cover("end");
}

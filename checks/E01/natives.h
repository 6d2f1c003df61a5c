// shared by the argument checks of E01: built-in functions and methods, by receiver; each path calls one with any number and kinds of arguments
#pragma once
#include "expr.h"
static const char *const e_prelude =
  "var S = \"aB,c\"; var L = [1, \"b\", nil, [2]]; var D = {\"a\": 1, 2: \"b\", nil: []}; var T = set(1, \"a\", 2.5); var N = 2.5; var B = true; var X = nil;"
  "abstract class Z { abstract zm() } trait Tr { tm() {} } class K { var cv = 1; const cc = 2; private pv; init(a = 1, b = 2, c = 3) { this.iv = a; } m(a = 1) { return a; } private pm() {} static sm(a) { return a; } } class K2 < K { use Tr; }"
  "enum E { P, Q = 2 } var I = K(); I.held = [1]; var R = Success(1); var F = Error(\"e\"); def f(a) { return a; } var g = def (a, b = 2) => b; def v(...a) { return a; } var bm = I.m;";
// the kinds of arguments; # is a number with a symbolic value

static const char *const e_args[] = {"1", "\"ab\"", "nil", "[\"a\", 2]", "f", "-1", "0", "2.5", "300", "-3000000000", "1e300", "1e300 * 1e300", "-(1e300 * 1e300)", "4294967296", "true", "\"\"", "[]", "{\"k\": 1}", "{}", "set(1)", "set()", "f", "K", "I", "R", "Z", "E", "bm", "print", "[[]]", "[nil, 2, 1]", "[\"b\", \"a\"]", "\"%Y\\\"%\"", "F", "g", "Tr", "S.len", "\"{}\"", "{nil: nil}", "[2.5, 1]", 0};
static int e_num[8];
// calls with symbolic numbers: fs holds calls with # for a number, each of them any number below small (0: any), and $ for an integer from -2 to 9
static void e_numbers(const char *prelude2, const char *const *fs, int small) {
  static char src[4096], prog[8192]; int n = 0; uint64_t heap = sx_heap_live();
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val);
  snprintf(prog, sizeof prog, "%s %s", e_prelude, prelude2); int rc = hx_run(vm, prog); sx_assert(rc == 0, "prelude runs");
  int c = 0; while (fs[c]) c++; int only = (int)sx_param("CALL", -1); const char *f = fs[only >= 0 ? only : sx_choose("call", c)]; char *s = src, nm[4] = "x";
  for (; *f; f++) if (*f == '#') { nm[1] = (char)('0' + n); double d = sx_double(nm); sx_assume(d == d); if (small) sx_assume(d < small); x_vals[n] = NUMBER_VAL(d); s += sprintf(s, "val(%d)", n++); } else if (*f == '$') { nm[1] = (char)('0' + n); x_vals[n] = NUMBER_VAL((double)(int)sx_range(nm, -2, 9)); s += sprintf(s, "val(%d)", n++); } else *s++ = *f;
  *s = 0; snprintf(prog, sizeof prog, "var result = %s;", src); rc = hx_run(vm, prog);
  if (rc == 0) sx_cover("value"); else if (rc == 2) sx_cover("error"); else sx_assert(0, "compiles");
  collectGarbage(vm); vm->nextGC = (size_t)1 << 40; dictuFreeVM(vm);
  sx_assert(sx_heap_live() == heap, "everything is released"); }
static int e_count(const char *const *t) { int n = 0; while (t[n]) n++; return n; }
static const char *e_call(const char *const *fs, char *src, int maxargs, int maxkinds, int *argc) { // the text of a call, without its value being used
  const char *fn = fs[sx_choose("function", e_count(fs))]; int n = sx_choose("arguments", maxargs + 1), nk = e_count(e_args); char *s = src; *argc = n;
  char nm[4] = ""; s += sprintf(s, "%s(", fn);
  for (int i = 0; i < n; i++) { nm[0] = 'a'; nm[1] = (char)('0' + i); const char *k = e_args[sx_choose(nm, i == 0 ? nk : maxkinds < nk ? maxkinds : nk)];
    if (*k == '#') { nm[0] = 'x'; double d = sx_double(nm); sx_assume(d == d); x_vals[i] = NUMBER_VAL(d); e_num[i] = 1; s += sprintf(s, "%sval(%d)", i ? ", " : "", i); } else s += sprintf(s, "%s%s", i ? ", " : "", k); }
  sprintf(s, ")"); return fn; }
static void e_go(const char *prelude2, const char *const *fs, int small) {
  static char src[4096], prog[8192]; int argc, number = 0; uint64_t heap = sx_heap_live();
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val);
  snprintf(prog, sizeof prog, "%s %s", e_prelude, prelude2); int rc = hx_run(vm, prog); sx_assert(rc == 0, "prelude runs");
  e_call(fs, src, (int)sx_param("ARGS", 2), (int)sx_param("KINDS", 6), &argc);
  for (int i = 0; i < argc; i++) if (e_num[i]) { number = 1; if (small) sx_assume(AS_NUMBER(x_vals[i]) < small); }
  snprintf(prog, sizeof prog, number ? "var result = %s;" : "var result = %s; var shown = [result].toString(); print(result);", src); rc = hx_run(vm, prog);
  if (rc == 0) sx_cover("value"); else if (rc == 2) sx_cover("error"); else sx_assert(0, "compiles");
  collectGarbage(vm); vm->nextGC = (size_t)1 << 40; dictuFreeVM(vm);
  sx_assert(sx_heap_live() == heap, "everything is released"); }

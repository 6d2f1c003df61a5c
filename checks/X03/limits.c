// @covers end, value, rejected, list, dict, call, params, init, locals, upvalues, constants, cases, multicase, unpackdecl, unpackset, imports, enum
// @quick SPAN=2
// @thorough SPAN=9
// @timeout 300 800
// @weight 3
// @bounds one program per construct (list and dict literal, call arguments, parameters, init with var parameters, locals, captured variables, constants, case blocks, values of one case, unpacking declarations and assignments, imported names, enum entries) with 0, 1, 127, 128, 254..258 and SPAN further items; one item at a symbolic position (first, middle, last, 255th, 256th) is any number
#include "expr.h"
enum { LIST, DICT, CALL, PARAMS, INIT, LOCALS, UPVALUES, CONSTANTS, CASES, MULTICASE, UNPACKDECL, UNPACKSET, IMPORTS, ENUM, NKIND };
static char src[400000]; static char *s;
static void num(int k) { int any = 0; s += sprintf(s, "("); for (int b = 0; b < 10; b++) if (k >> b & 1) { s += sprintf(s, any ? "+p%d" : "p%d", b); any = 1; } s += sprintf(s, any ? ")" : "z)"); } // the number k, without a constant
static void item(int k, int at) { if (k == at) s += sprintf(s, "x"); else num(k); }
#define P(...) (s += sprintf(s, __VA_ARGS__))
static void head(void) { P("def f(x, z, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9) { "); }
static const char *const tail = " } rec(f(val(0), 0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512));";
void h_limits(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  int kind = sx_choose("kind", NKIND);
  static const int sizes[] = {0, 1, 127, 128, 254, 255, 256, 257, 258};
  int span = sx_param("SPAN", 2), ns = sx_choose("size", 9 + span), n = ns < 9 ? sizes[ns] : ns % 2 ? 240 + ns : 270 + 31 * ns;
  int w = sx_choose("at", 5), at = w == 0 ? 0 : w == 1 ? n / 2 : w == 2 ? n - 1 : w == 3 ? 254 : 255;
  sx_assume(n > 0 || kind <= CALL); sx_assume(at < n || (w == 0 && n == 0));
  double v = sx_double("x"); sx_assume(v == v); Value want = NUMBER_VAL(v); x_vals[0] = want; s = src;
  switch (kind) {
    case LIST: head(); P("var l = ["); for (int i = 0; i < n; i++) { item(i, at); P(","); } P("]; if (l.len() != "); num(n); P(") { return false; } for (var i = 0; i < l.len(); i += 1) { if (i != "); num(at); P(" and l[i] != i) { return true; } } ");
      if (n) { P("return l["); num(at); P("];"); } else { P("return x;"); } P("%s", tail); break;
    case DICT: head(); P("var d = {"); for (int i = 0; i < n; i++) { if (i) P(","); num(i); P(":"); item(i, at); } P("}; if (d.len() != "); num(n); P(") { return false; } for (var i = 0; i < d.len(); i += 1) { if (i != "); num(at); P(" and d[i] != i) { return true; } } ");
      if (n) { P("return d["); num(at); P("];"); } else { P("return x;"); } P("%s", tail); break;
    case CALL: P("def g(...r) { return r; } "); head(); P("var l = g("); for (int i = 0; i < n; i++) { if (i) P(","); item(i, at); } P("); if (l.len() != "); num(n); P(") { return false; } for (var i = 0; i < l.len(); i += 1) { if (i != "); num(at); P(" and l[i] != i) { return true; } } ");
      if (n) { P("return l["); num(at); P("];"); } else { P("return x;"); } P("%s", tail); break;
    case PARAMS: P("def g("); for (int i = 0; i < n; i++) P(i ? ",a%d" : "a%d", i); P(") { return a%d; } var l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } l[%d] = val(0); rec(g(...l));", at, n, at); break;
    case INIT: P("class C { init("); for (int i = 0; i < n; i++) P(i ? ",var a%d" : "var a%d", i); P(") {} } var l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } l[%d] = val(0); rec(C(...l).a%d);", n, at, at); break;
    case LOCALS: P("def f(x) { "); for (int i = 0; i < n - 1; i++) P("var a%d = %s; ", i, i == at ? "x" : "nil"); if (at < n - 1) P("return a%d;", at); else P("return x;"); P(" } rec(f(val(0)));"); break;
    case UPVALUES: { P("def f(x) { "); int m = n > 128 ? 128 : n; for (int i = 0; i < m; i++) P("var a%d = %s; ", i, i == at ? "x" : "nil"); P("def g(x) { "); for (int i = m; i < n; i++) P("var a%d = %s; ", i, i == at ? "x" : "nil"); P("def h() { "); for (int i = 0; i < n; i++) P("a%d; ", i); P("return a%d; } return h(); } return g(x); } rec(f(val(0)));", at); break; }
    case CONSTANTS: head(); P("var c, r; "); for (int i = 0; i < n; i++) P("%s = %d; ", i == at ? "r" : "c", i); P("if (r != "); num(at); P(") { return false; } if (c != nil and c != "); num(at == n - 1 ? n - 2 : n - 1); P(") { return false; } return x; %s", tail); break;
    case CASES: head(); P("switch ("); num(at); P(") { "); for (int i = 0; i < n; i++) { P("case "); num(i); P(": { return "); item(i, at); P("; } "); } P("default: { return false; } } %s", tail); break;
    case MULTICASE: head(); P("var c = z; var l = [x]; switch (x) { case z: { return false; } case "); for (int i = 0; i < n; i++) { if (i) P(","); item(i, at); } P(": { return x; } } return true; %s", tail); sx_assume(v != 0); break;
    case UNPACKDECL: P("def f(l) { var ["); for (int i = 0; i < n; i++) P(i ? ",a%d" : "a%d", i); P("] = l; return a%d; } var l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } l[%d] = val(0); rec(f(l));", at, n, at); break;
    case UNPACKSET: P("def f(l) { var a0, a1, a2; ["); for (int i = 0; i < n; i++) P(i ? ",a%d" : "a%d", i == at ? 1 : i % 2 * 2); P("] = l; return a1; } var l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } l[%d] = val(0); rec(f(l));", n, at); break;
    case IMPORTS: P("from Math import "); for (int i = 0; i < n; i++) P(i == at ? ",pi" + !i : ",e" + !i); P("; rec(pi);"); want = NUMBER_VAL(3.14159265358979); break;
    default: P("enum E { "); for (int i = 0; i < n; i++) { if (i) P(", "); if (i == at) P("a%d = val(0)", i); else P("a%d = %d", i, i); } P(" } rec(E.a%d);", at); break; }
  x_have = 0; int rc = hx_run(vm, src);
  static const char *const names[] = {"list", "dict", "call", "params", "init", "locals", "upvalues", "constants", "cases", "multicase", "unpackdecl", "unpackset", "imports", "enum"};
  sx_assert(rc != 2, "a program that compiles runs without an error whatever its number of items");
  if (n <= 100) sx_assert(rc == 0, "a program with few items compiles");
  if (rc == 0) { sx_assert(x_have == 1 && x_same(x_got, want), "a program that compiles uses exactly the items written"); sx_cover("value"); sx_cover(names[kind]); } else { sx_assert(!x_have, "a rejected program does not run"); sx_cover("rejected"); }
  dictuFreeVM(vm); sx_cover("end");
}

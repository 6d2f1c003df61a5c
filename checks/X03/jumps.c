// @covers end, value, rejected, if, else, while, for, switch, and
// @max-instr 2000000000
// @timeout 400 800
// @weight 6
// @bounds bodies of if, else, while, for, case and default, and right operands of and and or, whose code takes 65520..65545 bytes or half of that; the condition is any boolean; the value computed any number
#include "expr.h"
static char src[400000]; static char *s;
#define P(...) (s += sprintf(s, __VA_ARGS__))
static void body(int bytes) { while (bytes > 5 || bytes == 3) { *s++ = 'x'; *s++ = ';'; bytes -= 3; } while (bytes >= 2) { s += sprintf(s, "nil;"); bytes -= 2; } }
void h_jumps(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "rec", xn_rec);
  int kind = sx_choose("kind", 7), n = sx_choose("size", 2) ? 65518 + sx_choose("more", 27) : 32760 + sx_choose("more", 12);
  int c = sx_choose("cond", 2); double v = sx_double("x"); sx_assume(v == v); x_vals[0] = NUMBER_VAL(v); x_vals[1] = BOOL_VAL(c); s = src; Value want = x_vals[0];
  P("def f(x, c) { var r = 1; ");
  switch (kind) {
    case 0: P("if (c) { r = x; "); body(n); P("} "); want = c ? want : NUMBER_VAL(1); break;
    case 1: P("if (c) { r = 2; } else { r = x; "); body(n); P("} "); want = c ? NUMBER_VAL(2) : want; break;
    case 2: P("while (c) { r = x; c = false; "); body(n); P("} "); want = c ? want : NUMBER_VAL(1); break;
    case 3: P("for (var i = 0; i < 2; i += 1) { if (i == 0 and c) { continue; } "); body(n); P("r = x; if (c) { break; } r = x; } "); break;
    case 4: P("switch (c) { case true: { r = x; "); body(n); P("} case false: { r = 3; } default: { r = 4; } } "); want = c ? want : NUMBER_VAL(3); break;
    case 5: P("switch (c) { case nil: { r = 4; } case true: { r = 3; } default: { r = x; "); body(n); P("} } "); want = c ? NUMBER_VAL(3) : want; break;
    default: P("r = c and x"); for (int i = 0; i < n / 3; i++) P("+x"); P("; r = c ? 5 : x; "); want = c ? NUMBER_VAL(5) : want; break; }
  P("return r; } rec(f(val(0), val(1)));");
  x_have = 0; int rc = hx_run(vm, src);
  static const char *const names[] = {"if", "else", "while", "for", "switch", "switch", "and"};
  sx_assert(rc != 2, "a program that compiles runs without an error however long its bodies are");
  if (n < 40000) sx_assert(rc == 0, "a body of half the largest jump compiles");
  if (rc == 0) { sx_assert(x_have == 1 && x_same(x_got, want), "a long body is run or skipped exactly as its condition says"); sx_cover("value"); sx_cover(names[kind]); } else { sx_assert(!x_have, "a rejected program does not run"); sx_cover("rejected"); }
  dictuFreeVM(vm); sx_cover("end");
}

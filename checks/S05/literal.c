// @wrap
// @covers end, escape, hex, invalid, raw, nul
// @quick N=4
// @thorough N=6
// @bounds string literals of 0..N arbitrary bytes other than NUL, in either kind of quotes, plain and raw, as an expression, dictionary key or default argument
#include "expr.h"
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void h_literal(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "rec", xn_rec);
  int n = sx_choose("len", sx_param("N", 4) + 1), raw = sx_choose("raw", 2), ctx = sx_choose("context", 3); char q = sx_choose("quote", 2) ? '"' : '\'';
  unsigned char b[8], want[8]; int m = 0, bad = 0;
  for (int i = 0; i < n; i++) { char nm[4] = {'b', (char)('0' + i), 0}; b[i] = (unsigned char)sx_sym(nm, 8); sx_assume(b[i] != 0); }
  if (raw) { for (int i = 0; i < n; i++) { sx_assume(b[i] != q); want[m++] = b[i]; } }
  else for (int i = 0; i < n; i++) {
    sx_assume(b[i] != q); // an unescaped quote ends the literal
    if (b[i] != '\\') { want[m++] = b[i]; continue; }
    sx_assume(i + 1 < n); int c = b[++i]; // a backslash before the closing quote escapes it
    switch (c) { case 'n': want[m++] = '\n'; break; case 't': want[m++] = '\t'; break; case 'r': want[m++] = '\r'; break; case 'v': want[m++] = '\v'; break;
      case '\\': case '\'': case '"': want[m++] = (unsigned char)c; sx_cover("escape"); break;
      case 'x': if (i + 2 >= n) { bad = 1; i = n; } else { int h = hexv(b[i + 1]), l = hexv(b[i + 2]); if (h < 0 || l < 0) { bad = 1; i = n; } else { want[m++] = (unsigned char)(h * 16 + l); i += 2; sx_cover("hex"); if (h + l == 0) sx_cover("nul"); } } break;
      default: want[m++] = '\\'; want[m++] = (unsigned char)c; } }
  char lit[16], src[100]; int k = 0; if (raw) { lit[k++] = 'r'; sx_cover("raw"); } lit[k++] = q; for (int i = 0; i < n; i++) lit[k++] = (char)b[i]; lit[k++] = q; lit[k] = 0;
  const char *pre = ctx == 0 ? "rec(" : ctx == 1 ? "var d = {" : "def f(a=", *post = ctx == 0 ? ");" : ctx == 1 ? ": 5}; rec(d.keys()[0]);" : ") { return a; } rec(f());";
  strcpy(src, pre); int p = (int)strlen(pre); memcpy(src + p, lit, (size_t)k); strcpy(src + p + k, post);
  x_have = 0; int rc = hx_run(vm, src);
  if (bad) { sx_cover("invalid"); sx_assert(rc == 1, "an invalid \\x escape is a compile error"); }
  else { sx_assert(rc == 0 && x_have == 1, "the literal is accepted");
    if (x_have) { ObjString *s = AS_STRING(x_got); sx_assert(IS_STRING(x_got) && s->length == m, "length of the denoted string"); int same = s->length == m; for (int i = 0; same && i < m; i++) same &= (unsigned char)s->chars[i] == want[i]; sx_assert(same, "bytes of the denoted string"); sx_assert(s->chars[s->length] == 0, "terminated"); } }
  dictuFreeVM(vm); sx_cover("end"); }

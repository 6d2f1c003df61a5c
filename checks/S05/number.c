// @covers end, hex, exponent, fraction, separator
// @quick N=4
// @thorough N=5
// @timeout 300 2400
// @bounds number literals of 1..N characters over digits, _ . e E x X + - and hexadecimal digits, as an operand, list item or default argument; exponents up to 18
#include "expr.h"
static int num_hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int dig(int c) { return c >= '0' && c <= '9'; }
void h_number(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "rec", xn_rec);
  int n = 1 + sx_choose("len", sx_param("N", 4)), ctx = sx_choose("context", 3); char b[8]; int p = 0;
  for (int i = 0; i < n; i++) { char nm[4] = {'b', (char)('0' + i), 0}; b[i] = (char)sx_sym(nm, 8); } b[n] = 0;
  for (int i = n; i < 8; i++) b[i] = 0;
  sx_assume(dig(b[0]));
  // the documented forms: decimal digits with optional fraction and exponent, or 0x and hexadecimal digits; _ separates digits
  int us = 1; while (b[0] == '0' && b[us] == '_') us++;
  if (b[0] == '0' && (b[us] == 'x' || b[us] == 'X')) { p = us + 1; sx_assume(num_hexv(b[p]) >= 0); for (; p < n; p++) sx_assume(b[p] == '_' || num_hexv(b[p]) >= 0); sx_cover("hex"); }
  else {
    for (; p < n && (dig(b[p]) || b[p] == '_'); p++) if (b[p] == '_') sx_cover("separator");
    if (p < n && b[p] == '.') { p++; sx_assume(p < n && dig(b[p])); while (p < n && (dig(b[p]) || b[p] == '_')) p++; sx_cover("fraction"); }
    int ex = 0; if (p < n && (b[p] == 'e' || b[p] == 'E')) { p++; while (p < n && b[p] == '_') p++; if (p < n && (b[p] == '+' || b[p] == '-')) p++; sx_assume(p < n && dig(b[p])); for (; p < n && (dig(b[p]) || b[p] == '_'); p++) if (b[p] != '_') { b[p] = (char)sx_concretize((uint64_t)(unsigned char)b[p]); ex = ex * 10 + (b[p] - '0'); } sx_assume(ex <= 18); sx_cover("exponent"); }
    sx_assume(p == n); }
  char t[8]; int k = 0; for (int i = 0; i < n; i++) if (b[i] != '_') t[k++] = b[i];
  t[k] = 0; double want = strtod(t, NULL); // the value C gives the text without its separators
  char src[120]; const char *pre = ctx == 0 ? "rec(" : ctx == 1 ? "rec([nil, " : "def f(a=", *post = ctx == 0 ? ");" : ctx == 1 ? "][1]);" : ") { return a; } rec(f());";
  strcpy(src, pre); k = (int)strlen(pre); memcpy(src + k, b, (size_t)n); strcpy(src + k + n, post);
  x_have = 0; int rc = hx_run(vm, src); sx_assert(rc == 0 && x_have == 1, "the literal is accepted");
  if (x_have) sx_assert(x_got == NUMBER_VAL(want), "value of the literal");
  dictuFreeVM(vm); sx_cover("end"); }

// @wrap
// @covers end
// @quick N=3 K=3
// @thorough N=4 K=3
// @timeout 120 800
// @bounds 1..K parts of 0..N characters from { / a }, given as arguments or as a list
#include "out.h"
void h_join(void) { int k = 1 + sx_choose("parts", (int)sx_param("K", 3)), N = (int)sx_param("N", 3), asList = sx_choose("list", 2), len[3] = {0}; char b[3][8] = {{0}}; DictuVM *vm = o_new();
  static const char *const nm[] = {"p0", "p1", "p2"}; char s[200]; int l = sprintf(s, "import Path; out(Path.join(%s", asList ? "[" : ""); char w[64] = {0}; int o = 0;
  for (int i = 0; i < k; i++) { len[i] = sx_choose("n", N + 1); o_text(b[i], len[i], nm[i], "/a"); x_vals[i] = o_mk(vm, b[i], len[i]); l += sprintf(s + l, "%sval(%d)", i ? ", " : "", i); }
  sprintf(s + l, "%s));", asList ? "]" : ""); o_ok(vm, s);
  for (int i = 0; i < k; i++) { int st = 0, en = len[i]; while (st < en && b[i][st] == '/') st++; while (en > st && b[i][en - 1] == '/') en--;
    if (i == 0 && st > 0) w[o++] = '/'; for (int j = st; j < en; j++) w[o++] = b[i][j];
    if (i == k - 1) { if (en > st && en < len[i]) w[o++] = '/'; } else if (en > st || len[i] == 0) w[o++] = '/'; }
  sx_assert(o_str(0, w, o), "join() puts exactly one separator between parts, keeps a leading one of the first and a trailing one of the last part, and every other character"); sx_cover("end"); dictuFreeVM(vm); }
